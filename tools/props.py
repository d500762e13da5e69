#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that the text is reviewable)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "terragraph_planner/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [B + f for f in files],
            "mechanism": [{"name": n, "where": B + w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n} for n in state]
    P.append(d)


p("T01", "Network store stays internally consistent under any edit history",
  "After any sequence of adding and removing sites, sectors, links and demand points, the store holds exactly the objects added and not removed: removing a site removes its sectors and every link touching it and nothing else, removing a sector detaches it from every link that used it, and rejected edits change nothing. Every lookup view (successors, predecessors, wired/wireless neighbours, sector-to-sector connectivity, link by its two ends, filters by status or type) agrees with that content at every point. No legal edit is refused or crashes because of earlier edits.",
  ["histories"], "every finite interleaving of edits over any set of sites, sectors and links, including re-adding what was removed",
  "tests exercise single edits from one fixed start; stale index entries only show after particular add/remove/re-add orders",
  ["common/topology_models/topology.py"],
  [("Topology edits and views", "common/topology_models/topology.py:Topology")],
  ["public edit methods and public lookup methods of the topology object"],
  ["sites, sectors, links, demand sites, forward/backward connectivity index, site-to-sector index"])

p("T02", "Existing and unavailable equipment never changes status; ends constrain",
  "A site, sector or link that is existing or unavailable never changes status and nothing becomes existing or unavailable later. At the moment of any accepted status change, a link is existing only between existing sites, is unreachable or unavailable when an end is unreachable and unavailable when an end is, and is never active while an end is a mere candidate; a sector of an inactive site carries that site's status and a sector of an active site is candidate, proposed or existing. A refused change leaves the old status in place.",
  ["histories"], "every sequence of status changes over sites, sectors and links in any starting status combination",
  "the rule is a product of 5x5x5 status combinations and change orders; tests sample a few",
  ["common/topology_models/site.py", "common/topology_models/sector.py", "common/topology_models/link.py"],
  [("status setters", "common/topology_models/link.py:Link.status_type"), ("sector status rule", "common/topology_models/sector.py:Sector._check_compatible_status_type"), ("site status rule", "common/topology_models/site.py:Site.status_type")],
  ["status of each element after each attempted change"])

p("T03", "Sites, sectors and links have sound identity and derived geometry",
  "Two sites are the same exactly when type, position and device agree, and a link's identity is its ordered pair of ends. Ill-formed elements are always refused: a rooftop site without a building or a building on a non-rooftop site, a device of the wrong kind, a subscriber site as transmitter, a link with one sector or a sector of another site. Distance, bearings at both ends, elevation and sector deviations of a link are the geometric ones for its ends (3-D when altitudes are known), reversing a link swaps its bearings, and a CN counts at least one subscriber while other sites count none.",
  ["inputs"], "every pair of positions, types, devices, sector orientations and optional fields",
  "derived values depend on continuous coordinates, including antimeridian and co-located positions, which tests sample at a few points",
  ["common/topology_models/site.py", "common/topology_models/sector.py", "common/topology_models/link.py", "common/geos.py"],
  [("Link derived values", "common/topology_models/link.py:Link"), ("geometry", "common/geos.py")],
  ["public attributes of constructed elements, exceptions at construction"])

p("P01", "Unreachable parts are marked exactly; hop counts are shortest paths",
  "Before planning, exactly the candidate sites that no directed chain of usable links (and usable sites) joins to a usable POP, or whose shortest such chain has more hops than the route limit, become unreachable, together with all their sectors and every link touching them that is neither existing nor unavailable; nothing else changes and marking again changes nothing. The hop count of every reachable site is the least number of links (wireless or wired) from any usable POP, and a demand is reachable exactly when one of its sites is.",
  ["inputs"], "every network of sites, links, statuses and wired segments",
  "depends on global graph structure (cycles, wired shortcuts, unavailable nodes, multiple POPs)",
  ["optimization/topology_networkx.py", "optimization/topology_operations.py"],
  [("hop counting", "optimization/topology_networkx.py:single_edge_weights/get_topology_networkx"), ("marking", "optimization/topology_operations.py:mark_unreachable_components")],
  ["status of every element after marking, returned hop map"])

p("P02", "Every demand is attached to all and only the sites allowed to serve it",
  "The demand points used in planning are exactly those the enabled demand models (uniform grid over the sites' area, one per CN position, entered by hand) prescribe, each joined exactly once to each planned-for site within the configured radius or at its own position (co-located sites of a CN included), grid points joined to nothing being dropped. Every demand point carries the configured rate, counts the subscribers of the CN it stands for, and no position gets two demand points.",
  ["inputs"], "every layout of sites, demand points and demand-model settings",
  "nearest/within-distance assignment and co-location handling depend on the joint geometry of all points",
  ["optimization/topology_demand.py"],
  [("demand models", "optimization/topology_demand.py:add_demand_to_topology")],
  ["demand points of the prepared network and their connected sites"])

p("P03", "Preparation validates input networks and aligns element statuses",
  "A network is accepted for planning exactly when its statuses are consistent: an active backhaul link has an active reverse and both directions one status, an active wireless link has active sectors at both ends, and active links join active sites; a contradictory network is refused. Acceptance changes nothing in the network, and wired links need no sectors.",
  ["inputs"], "every combination of statuses of sites, sectors and links",
  "product of statuses over several elements",
  ["optimization/topology_preparation.py"],
  [("status validation", "optimization/topology_preparation.py:validate_topology_status")],
  ["exception or unchanged network"])

p("S01", "Sector layout: right count, spacing, coverage and link-to-sector assignment",
  "Every planned DN/POP gets exactly the radios of its device with each node's sectors spaced as the device prescribes and no two nodes overlapping, and a CN gets one sector aimed at a link that may serve it. Every wireless link that a sector on each end can steer to gets sectors at both ends whose steering range covers its bearing and all other links carry none; a sector carrying an active link is active and the node of an existing link is existing. Sectors supplied with the network are kept when valid and refused when they overlap or exceed the hardware.",
  ["inputs"], "every placement of sites, links and device geometries",
  "angles wrap at 360 degrees and interact with node centres; tests use a handful of layouts",
  ["optimization/topology_preparation.py"],
  [("sector creation", "optimization/topology_preparation.py:setup_node_structure"), ("assignment", "optimization/topology_preparation.py:add_sectors_to_links")],
  ["sectors of each site, sectors of each link"])

p("O01", "Applying a plan sets exactly the decided elements, deterministically",
  "After a planning step's decisions are applied, every site, sector or link that is neither existing, unavailable nor unreachable is proposed exactly when the step chose it and is joined to a POP by chosen or existing equipment, and otherwise falls back to candidate; active links only join active sites and existing, unavailable and unreachable elements are untouched. Chosen polarity and channel are recorded on the elements they were chosen for, and the result does not depend on what was proposed before.",
  ["histories"], "every sequence of planning steps and every decision vector a solver may return",
  "the final status depends on the order of steps and on previous proposals",
  ["optimization/topology_optimization.py"],
  [("apply decisions", "optimization/topology_optimization.py:update_topology_with_solution")],
  ["statuses of all elements before and after applying a decision vector"])

p("O02", "Re-aiming sectors after planning keeps the plan and the radio facts consistent",
  "Re-aiming sectors after planning changes no site's or link's status, touches nothing at sites without active links, and leaves at every site a sound layout (the device's number of nodes and sectors, spaced as prescribed, not overlapping, all sectors of a node active or none). Every active wireless link ends with a sector on both ends whose steering range covers it and whose channel is the one it had, no link's aim gets worse where no other rule demands it, and links to inactive CNs outside a sector's range lose their sectors.",
  ["inputs"], "every planned network with any sector layout",
  "depends on the joint geometry of selected links",
  ["optimization/topology_operations.py"],
  [("re-aim", "optimization/topology_operations.py:readjust_sectors_post_opt")],
  ["topology before and after re-aiming"])

p("A01", "Single-failure analysis names exactly the demands that lose service",
  "For every wireless backhaul link (both directions failing together) and for every POP and DN, the reported set of cut-off demands is exactly those connected before and no longer connected to any POP after that one failure. Failures that cut off nothing are reported with nothing lost (links) or not reported (sites).",
  ["inputs"], "every active network graph",
  "connectivity after removal is a global graph property",
  ["optimization/topology_networkx.py"],
  [("edge failures", "optimization/topology_networkx.py:single_edge_failures"), ("site failures", "optimization/topology_networkx.py:single_site_failures")],
  ["returned disruption maps"])

p("A02", "Adversarial link selection never cuts off a demand the candidates could serve",
  "The links chosen to be banned for redundancy are wireless backhaul links of the current plan that disrupt some demand, chosen worst first, each together with its reverse, at most the requested number. Banning all of them together leaves every demand that the candidate network could serve still connected.",
  ["inputs"], "every pair of plan and candidate network and every requested count",
  "each candidate must be re-tested against the accumulated removals",
  ["optimization/topology_networkx.py", "optimization/topology_operations.py"],
  [("selection", "optimization/topology_networkx.py:find_most_disruptive_links"), ("inputs", "optimization/topology_operations.py:get_adversarial_links")],
  ["returned set of links"])

p("A03", "Routing uses least-cost loop-free paths and every served demand is routed",
  "Under each routing policy the set of links reported as used is a union of one least-cost chain per demand that is connected, from a POP to that demand: fewest hops, or least modulation-derived cost, or least modulation-derived cost inside the zone of the POP nearest in hops. Demands with no connection add no links.",
  ["inputs"], "every active network and routing policy",
  "least-cost is a statement over all paths",
  ["optimization/topology_networkx.py"],
  [("routing", "optimization/topology_networkx.py:get_topology_routing_results")],
  ["returned set of link identities"])

p("A04", "Redundant-route report is exact and leaves the network graph unchanged",
  "A demand is reported disconnected exactly when no active chain from a POP reaches it, POP-attached exactly when a POP serves it directly, and doubly routed exactly when it stays connected after the backhaul hops of a shortest route to it are removed. Producing the report changes nothing that later analyses read.",
  ["inputs"], "every active network", "needs path removal and restoration over whole graphs",
  ["optimization/topology_networkx.py"],
  [("disjoint paths", "optimization/topology_networkx.py:disjoint_paths")],
  ["returned demand classes, graph before and after"])

p("A05", "Availability simulation accounts every instant of every outage",
  "For any sequence of link outages and repairs, a demand's availability is the fraction of the simulated period during which some live chain joins it to a POP, and a link's availability is the fraction during which it is up; a simulation stopped by its time limit relates both to the time simulated, and links that never fail or always fail give exactly the all-live and all-failed picture. Only wireless backhaul links fail, both directions together, a demand never connected is not reported, one seed gives one result, and the network analysed is unchanged.",
  ["schedules"], "every schedule of failure and repair events over the backhaul links",
  "tests check averages of a random simulation with wide tolerance",
  ["optimization/topology_availability.py"],
  [("event loop", "optimization/topology_availability.py:compute_availability")],
  ["returned availability per demand and per link"])

p("D01", "Deployment-rule violations are found completely and only where they exist",
  "Two wireless links leaving one site from different sectors violate the angle rule exactly when their angle is at most the limit, and the near-far rule exactly when it exceeds that limit, is at most the near-far angle and the lengths' ratio is at least the limit; in a finished plan only active links on the same channel count, and every link named by a violation (both directions) is marked. A DN/POP sector violates the point-to-multipoint limit exactly when it drives more active DN links, or more active links in total, than allowed.",
  ["inputs"], "every fan-out of links around every site, all limits",
  "pairwise geometry around each site with thresholds",
  ["optimization/deployment_rules.py", "common/geos.py"],
  [("angle rule", "optimization/deployment_rules.py:find_angle_violating_link_pairs"), ("sector limits", "optimization/deployment_rules.py:find_sector_limit_violations")],
  ["returned violation lists"])

p("I01", "Interference is counted from exactly the transmitters that can disturb a link",
  "The signal-to-interference ratio of every active wireless link counts, once each, exactly the active transmitters whose path to its receiver exists, on the same channel, of the polarity that transmits while it receives, and not aimed at the receiving sector itself; a transmitting sector serving several links disturbs with the mean over them, and inactive, redundant or wired links disturb nobody. A link without interferers keeps its noise-limited value, and adding an interferer never improves any link.",
  ["inputs"], "every active network with polarities, channels and sector sharing",
  "which transmitters interfere depends on polarity/channel/sector relations of whole neighbourhoods",
  ["optimization/topology_interference.py"],
  [("interference", "optimization/topology_interference.py:analyze_interference"), ("net gain", "optimization/topology_interference.py:compute_link_net_gain_map")],
  ["signal ratio recorded on each active link"])

p("C01", "Counts and costs in the report equal what is in the network",
  "Reported numbers of sites, nodes, sectors, links and demand-connected sites by type and activity equal a direct count of the network, co-located sites of one type (and the links between the same places) counting once in the totals. Proposed cost is the sum over proposed sites of their price by type and over distinct proposed nodes of their device's price, and total cost is that plus the same sum over existing equipment; the POP capacity of a network is the sum over POPs of what their sectors' fastest links and wires carry, capped per POP.",
  ["inputs"], "every network", "sums over categories with exclusions; off-by-one category errors survive sampled tests",
  ["optimization/topology_component_counter.py", "optimization/topology_operations.py"],
  [("counting", "optimization/topology_component_counter.py:count_topology_components"), ("capex", "optimization/topology_operations.py:compute_capex")],
  ["returned counts and costs"])

p("L01", "Line-of-sight verdicts agree with the obstruction geometry",
  "A pair of sites is accepted with a confidence exactly when its distance and elevation angle are within limits, it does not cross an exclusion zone or join two points of one rooftop, and the clearance around the sight line (cylinder or Fresnel ellipsoid) gives at least the threshold confidence. Confidence is 1 with no obstruction, 0 when the direct ray is blocked, never rises when an obstruction grows, and is the same in both directions.",
  ["inputs"], "every pair of positions and every obstruction field",
  "continuous geometry over arbitrary obstruction sets",
  ["los/base_los_validator.py", "los/cylindrical_los_validator.py", "los/ellipsoidal_los_validator.py", "los/fresnel_zone.py"],
  [("validator", "los/base_los_validator.py:BaseLOSValidator")],
  ["returned confidence"])

p("L02", "Candidate network contains exactly the sites and links line-of-sight supports",
  "The candidate network keeps all entered sites inside the boundary and, per building, only the best-connected detected sites (plus, where asked, further DNs chosen greedily to reach unconnected CNs); it has a link exactly where line of sight was accepted between two kept, usable sites of compatible type, carrying its confidence, in each direction that can transmit. An extended base network keeps all its sites, sectors and links and gains links between new sites and between new and old ones, none to unreachable or unavailable sites.",
  ["inputs"], "every set of line-of-sight results, buildings and base networks",
  "selection is a global choice over graphs",
  ["los/helper.py", "los/core.py"],
  [("pick per building", "los/helper.py:pick_best_sites_per_building"), ("construct", "los/helper.py:construct_topology_from_los_result")],
  ["constructed network"])

p("L03", "Maximum line-of-sight range never drops a usable link",
  "The range computed for a device pair is the shortest whole distance at which its capacity is zero, and never exceeds the configured maximum. Between two DN types it is the larger over both directions, and an unknown modulation class or a range beyond ten kilometres is refused.",
  ["inputs"], "every radio and weather parameter set", "monotone search over a continuous function",
  ["los/helper.py"],
  [("range search", "los/helper.py:search_max_los_dist_based_on_capacity")],
  ["returned distances"])

p("R01", "Link budgets follow the radio model for every device pair and distance",
  "Received level, signal-to-noise ratio, modulation class, transmit power and capacity of a link are those of free-space, oxygen and rain loss, antenna gains at the actual deviations, noise floor and the device's modulation table, with the highest class whose threshold is met and that class's power back-off; capacity never rises with distance, rain, losses or misalignment, and a wired link is lossless at POP capacity. Power control for the report lowers each link's power to the least that still holds its class, within the device's limits, and a silent link stays silent.",
  ["inputs"], "every device parameter set, distance and deviation",
  "numerical model with thresholds, tests fix a few points",
  ["common/rf/link_budget_calculator.py"],
  [("link budget", "common/rf/link_budget_calculator.py:fspl_based_estimation")],
  ["returned measurements"])

p("F01", "Site input files are read completely, filtered and named without loss",
  "Every site row inside the boundary becomes exactly the sites it describes, one per permitted device when none is named, with its stated type, status, position, height, building and name, blank cells meaning the default and sites named apart where one name would be borne twice. Duplicate rows are merged when they agree and refused when they conflict, and malformed rows, unknown devices and clashing names are refused, never silently altered.",
  ["inputs"], "every site table", "combinations of optional columns, duplicates and devices",
  ["common/data_io/csv_library.py", "common/data_io/input_sites.py", "common/data_io/input_sites_loader.py"],
  [("loading", "common/data_io/input_sites_loader.py:InputSitesLoader")],
  ["loaded sites"])

p("F02", "Link input is matched to sites unambiguously in both directions",
  "Each link given by names or coordinates joins exactly the sites meant (by name, else nearest within ten metres), in both directions unless the transmitter would be a CN, with the type and status its field or folder gives; wired rows of detected networks are ignored. Contradictory statuses, duplicate rows, statuses its ends do not allow, unmatchable ends and files that are missing, cut off or of another kind are refused with the planner's own error.",
  ["inputs"], "every combination of link rows, names and positions",
  "name/coordinate matching has many branches",
  ["common/data_io/utils.py", "common/data_io/csv_library.py", "common/data_io/kml_library.py"],
  [("matching", "common/data_io/utils.py:map_input_sites_links_from_kml")],
  ["resulting links"])

p("F03", "A network written to KML and read back is the same network",
  "Writing a network whose links have both directions under one status to KML and reading it back yields the same sites, wireless links and demand points with type, status, position, name, device, confidence (to one decimal) and connectivity preserved, whatever characters names contain. The writer leaves the network unchanged, and a second round trip changes nothing more.",
  ["inputs"], "every network", "round trip over all field combinations",
  ["common/data_io/topology_serializer.py", "common/data_io/kml_library.py", "common/data_io/utils.py"],
  [("writer", "common/data_io/topology_serializer.py:write_to_kml_file"), ("reader", "common/data_io/utils.py:extract_topology_from_kml_file")],
  ["re-read network"])

p("G01", "Elevation grids answer with the nearest height and combine without inventing any",
  "Asked for a height anywhere, an elevation grid answers with the height of the nearest cell (beyond its rim, the last one); a cell without data borrows the nearest height within 50 m, else the mean, and keeps that answer. Changing the resolution, cutting out a box, listing and summing or differencing two grids follow from those answers, cells without data stay without data in sums and differences, and grids that do not share resolution and frame are resampled first. A GeoTIFF is complained about exactly when its date is unreadable, in the future or over 20 years back, or its cells are under 0.15 or over 35 metres; what is read from one or several files has the files' heights at the files' places, cut to the area asked for, in its UTM zone; a written grid reads back as it was.",
  ["histories", "inputs"], "every grid, every order of questions and every combination of files",
  "a grid answers differently after earlier questions, and frames differ by fractions of a cell",
  ["los/elevation.py", "common/data_io/elevation_loader.py", "los/core.py", "los/helper.py"],
  [("grid", "los/elevation.py:Elevation"), ("loader", "common/data_io/elevation_loader.py:ElevationLoader"), ("combining", "los/core.py:load_gis_data")],
  ["answers of the grid", "loaded grids"])

p("G02", "Drawn areas, building outlines and rooftop candidates are those of the files",
  "Every outline of a supported file (zipped shape file, KML, KMZ) and only those are read, in longitude and latitude or re-projected metres, holes ignored, and files of other make are refused or complained about. Outlines are cut to the area of interest and those left with under 50 square metres dropped. The area is exactly one polygon and picks its UTM zone; closed zones are those drawn wholly in it. On every rooftop the sites asked for are found: the centre (or a point inside), the highest point (the centre without elevation data) and up to three distinct corners within the corner-angle limit, each with the altitude of the surface plus mounting height.",
  ["inputs"], "every file layout, outline and surface",
  "outlines, surfaces and file layouts combine freely",
  ["common/data_io/building_group_loader.py", "common/data_io/kml_library.py", "los/building_group.py", "los/building.py", "los/helper.py"],
  [("outlines", "common/data_io/building_group_loader.py:BuildingGroupLoader"), ("areas", "common/data_io/kml_library.py:extract_polygons"), ("detection", "los/building_group.py:BuildingGroup.detect_site_candidates")],
  ["loaded outlines, zones and detected sites"])

p("K01", "Configuration is accepted exactly when valid and means what it says",
  "Every setting outside its documented range, unknown value or duplicate device is refused, every valid one is accepted and kept under its name in any letter case, and blank or missing settings take their default; radio settings given project-wide reach every device that does not set its own, and modulation tables keep exactly the classes the device's limits admit. Writing a configuration out and reading it back gives the same configuration.",
  ["configurations"], "every configuration", "cross product of settings and boundary values",
  ["common/configuration/configs.py", "common/configuration/utils.py"],
  [("validation", "common/configuration/configs.py:ConfigParser")],
  ["parsed configuration or refusal"])

p("M01", "Minimum-cost plans are feasible and none cheaper meets the coverage",
  "The minimum-cost plan serves the required share of demand (or of the common bandwidth of all connectable demands, when so configured) within link, time-sharing and POP capacity over usable equipment only, keeps what is already active, activates at most one of several co-located sites, gives linked DN/POP sites opposite polarities, and no feasible choice of sites costs less. When no choice can meet the coverage the step returns nothing instead of a plan.",
  ["inputs"], "every small candidate network and cost/coverage setting", "optimality is a statement over all alternatives",
  ["optimization/ilp_models/cost_optimization.py", "optimization/ilp_models/network_optimization.py", "optimization/ilp_models/site_optimization.py"],
  [("min cost", "optimization/ilp_models/cost_optimization.py:MinCostNetwork")],
  ["returned decisions"])

p("M02", "Maximum-coverage plans stay within budget and no affordable plan covers more",
  "The maximum-coverage plan costs at most the budget, obeys the same structural and capacity rules as any plan, carries nothing over links banned as adversarial, and no affordable choice leaves less demand unserved (or a larger common bandwidth, when so configured). Without a budget, or when nothing can be served, the step returns no plan.",
  ["inputs"], "every small candidate network and budget", "optimality over all alternatives",
  ["optimization/ilp_models/coverage_optimization.py"],
  [("max coverage", "optimization/ilp_models/coverage_optimization.py:MaxCoverageNetwork")],
  ["returned decisions"])

p("M03", "Final link plan obeys radio, polarity, channel and deployment rules",
  "In the final plan wirelessly linked DN/POP sites have opposite polarity, each CN has at most one serving link, all sectors of a node are active or none and on one channel, sectors obey their point-to-multipoint limits, and no two active links violate the angle rules unless both were given. Existing links stay, demand is served as fully as any such link choice allows, and among those choices the weighted number of active links is the largest; of several given co-located sites only the highest type stays.",
  ["inputs"], "every small planned network", "joint constraints over all links",
  ["optimization/ilp_models/interference_optimization.py"],
  [("final links", "optimization/ilp_models/interference_optimization.py:MinInterferenceNetwork")],
  ["returned decisions"])

p("M04", "Reported traffic flow conserves demand within all capacities",
  "In every computed traffic solution inflow equals outflow plus delivered demand at each site, no link, sector time share or POP exceeds its capacity, and nothing flows over inactive or redundant elements. Every connected demand gets the same rate, which is the largest all can have at once, unconnected ones get nothing, and the set of connected demands is exactly those an active chain of usable links joins to a POP.",
  ["inputs"], "every small active network", "LP optimality and conservation over all sites",
  ["optimization/ilp_models/flow_optimization.py", "optimization/ilp_models/network_optimization.py"],
  [("max flow", "optimization/ilp_models/flow_optimization.py:MaxFlowNetwork")],
  ["returned flows"])

p("M05", "Redundant plans survive the failures they promise to survive",
  "In the redundant plan every active DN gets as many vertex-disjoint routes to POPs as the redundancy level promises or as the candidate network allows, the total shortfall is the least possible and the cost least for that shortfall; the plan keeps all that was active and obeys the rules of co-location, polarity and sectors. Narrowing the candidates to a pruned network removes only what cannot help, and a step that cannot succeed returns nothing.",
  ["fault_sequences"], "every small network and every failure within the promised level", "failure combinations",
  ["optimization/ilp_models/redundancy_optimization.py"],
  [("redundancy", "optimization/ilp_models/redundancy_optimization.py:RedundantNetwork")],
  ["returned decisions"])

p("M06", "End-to-end planning yields a consistent plan whatever the steps return",
  "Planning asks its steps in the documented order with the coverage lowered from 100 to 50 percent by tens while the minimum-cost step finds nothing, changes the network only by the steps' answers, survives an extra-POP, redundancy or coverage step that returns nothing, and ends in a clear error naming the reason (time-out, too few POPs, no POP, no demand, infeasible) when nothing can be planned. The final network has existing equipment intact, legal statuses, no proposed equipment cut off from every POP, and in a new network costs at most the budget or the minimum cost, whichever is larger; it does not depend on the order in which the input lists its elements.",
  ["fault_sequences"], "every outcome sequence of the planning steps", "outcome combinations across steps",
  ["optimization/topology_optimization.py"],
  [("pipeline", "optimization/topology_optimization.py:optimize_topology")],
  ["final topology"])

p("M07", "Extra POP proposals stay within the requested number and upgrade usable sites",
  "Proposing extra POPs selects at most the requested number of stand-alone candidate DN sites, none sharing its place with a POP or an active DN, keeps given POPs, and no other selection serves more demand over single hops. Each choice adds a candidate POP of the same place, device and sectors with the DN's links to all non-POP neighbours (ruled-out links staying ruled out) and its demand, and changes nothing else.",
  ["inputs"], "every small network", "choice over all subsets",
  ["optimization/ilp_models/pop_proposal_optimization.py"],
  [("pop proposal", "optimization/ilp_models/pop_proposal_optimization.py")],
  ["returned sites"])

p("R02", "Published result tables and metrics agree with the planned network",
  "Every row of the site, sector and link tables written for a finished plan (identity, status, geometry, radio values, flow, utilisation, outages caused, hops, hardware and rule violations) equals what the network says, with every site and link and each active sector listed once. Every metric (counts, cost, demand, bandwidth, utilisation, links per sector, link lengths, modulation histogram, failure effects, availability and rule violations) equals the total, extreme or mean over the right population, and the analysis changes nothing but flow, power and redundancy marks.",
  ["inputs"], "every planned network", "cross-consistency of dozens of derived numbers",
  ["optimization/topology_report.py"],
  [("report", "optimization/topology_report.py:analyze")],
  ["tables and metrics"])

p("F04", "Antenna and scan pattern files mean what they say",
  "Reading an antenna pattern file in any supported layout gives each named antenna its 360 horizontal and 360 vertical losses in order; a radio using it gains its boresight and diversity gain plus the two losses at any azimuth and elevation deviation, wrapped to a full turn. A scan pattern file gives exactly its table of gains, and a radio using it gains the entry for the deviations. A file with missing or non-numeric entries ends in a data error, never a foreign one and never a pattern with holes.",
  ["inputs"], "every pattern file", "every layout, fault position and angle",
  ["common/data_io/csv_library.py", "common/rf/link_budget_calculator.py", "common/configuration/configs.py"],
  [("pattern files", "common/data_io/csv_library.py:read_antenna_pattern_data"), ("gain", "common/rf/link_budget_calculator.py:extract_gain_from_radio_pattern")],
  ["pattern tables and gains"])

p("L04", "A candidate network generated from files is the one its input files imply",
  "Generating a candidate network from an area, elevation grids (any documented combination), building outlines, entered sites, exclusion zones and a base network gives exactly: the entered sites inside the area, at the altitude and location type their entry and the surface imply; on every large enough building inside the area the best detected place, and the additional DNs; and between them a link wherever distance, device range, elevation, exclusion zones inside the area, and the surface leave a sight line, with its confidence. The base network stays as it is, the network is written to the output file, and unusable input (no, several or a self-crossing area, a missing device kind) ends in a planner error.",
  ["inputs"], "every world and configuration", "each step passes its results on: units, orders and optional files combine",
  ["los/core.py", "los/helper.py"],
  [("generation", "los/core.py:generate_candidate_topology"), ("gis data", "los/core.py:load_gis_data"), ("pairs and zones", "los/helper.py:get_los_topology")],
  ["generated network"])

p("E01", "A plan delivered from files is a sound plan of the network put in",
  "Planning from a candidate file (KML or zipped tables) and a configuration file either refuses for a reason that is in the inputs or delivers tables, metrics and a map that agree. No site or link is lost or invented, existing and ruled-out elements keep their status, copies of DNs as extra POPs stand at the DN's place. Active links join active sites in both directions with sectors, channels and opposite polarities; proposed sites reach a POP; deployment rules hold where everything is new. Counts, costs, hops and flows in the tables agree with each other, and generous settings leave no reachable client unserved. Keeping debug files changes nothing. Without a candidate file the plan is made on the network drawn up from the sites and area given.",
  ["inputs", "configurations"], "every candidate network and configuration",
  "consistency of all delivered files depends on the whole pipeline",
  ["common/data_io", "optimization/topology_optimization.py", "optimization/topology_report.py"],
  [("whole run", "optimization/topology_optimization.py:optimize_topology"), ("tables", "optimization/topology_report.py")],
  ["files in the output folder"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
