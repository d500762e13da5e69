------------------------------- MODULE Config -------------------------------
(* What a configuration document means, and when it has to be refused.

   The documented template is stated as a table of settings (default, allowed
   range); the meaning of a document is the function setting -> value it
   induces, the radio settings given project-wide holding for every device.

   c.target    "optimizer" | "los" | "system" | "data"
   c.given     setting -> value as text (blank settings are left out)
   c.illegal   the document contains a name the template does not know
   c.dev       sequence of [given, rows]: one per device; rows is <<>> when no
               throughput table is given, else <<table>> with table a sequence
               of [mcs, snr, mbps, back]
   c.status    "ok" or the class of the refusal
   c.value     setting -> value read (status = "ok")
   c.devs      per device [value, table]
   c.again     "same" | "different" | "raised": written out and read again    *)
EXTENDS F, Integers, Sequences, FiniteSets, TLC

\* [d: default, lo, ls (strict lower), hi, hs (strict upper)]
R(d, lo, ls, hi, hs) == [d |-> d, lo |-> lo, ls |-> ls, hi |-> hi, hs |-> hs]
Free(d) == R(d, "", FALSE, "", FALSE)
NonNeg(d) == R(d, "0", FALSE, "", FALSE)
Pos(d) == R(d, "0", TRUE, "", FALSE)
AtLeast(d, lo) == R(d, lo, FALSE, "", FALSE)
Within(d, lo, hi) == R(d, lo, FALSE, hi, FALSE)

\* radio settings given once for the whole project
Project == [carrier_frequency |-> Pos("60000"), thermal_noise_power |-> Free("-81"), noise_figure |-> NonNeg("7"),
            rain_rate |-> NonNeg("30"), link_availability_percentage |-> R("99.9", "0", FALSE, "100", TRUE)]

Numbers(target) ==
  CASE target = "optimizer" -> Project @@
         [maximum_eirp |-> Free("none"),
          pop_site_capex |-> NonNeg("1500"), cn_site_capex |-> NonNeg("1500"), dn_site_capex |-> NonNeg("1500"),
          budget |-> NonNeg("300000"), pop_capacity |-> Pos("10"), oversubscription |-> AtLeast("1", "1"),
          number_of_extra_pops |-> NonNeg("0"), demand_spacing |-> Free("0"), demand_connection_radius |-> Free("0"),
          demand |-> Pos("0.025"), dn_dn_sector_limit |-> Pos("2"), dn_total_sector_limit |-> Pos("15"),
          maximum_number_hops |-> Pos("15"), diff_sector_angle_limit |-> Within("25", "0", "180"),
          near_far_length_ratio |-> Pos("3"), near_far_angle_limit |-> Within("45", "0", "180"),
          number_of_channels |-> AtLeast("1", "1"), backhaul_link_redundancy_ratio |-> Within("0.2", "0", "1"),
          num_threads |-> Pos("none"),
          min_cost_rel_stop |-> Free("0.05"), redundancy_rel_stop |-> Free("0.05"), max_coverage_rel_stop |-> Free("-1"),
          interference_rel_stop |-> Free("-1"), pop_proposal_rel_stop |-> Free("-1"),
          min_cost_max_time |-> Pos("60"), redundancy_max_time |-> Pos("60"), max_coverage_max_time |-> Pos("60"),
          interference_max_time |-> Pos("60"), pop_proposal_max_time |-> Pos("60"), demand_site_max_time |-> Pos("15"),
          availability_max_time |-> Pos("60"), availability_sim_time |-> Free("100"), availability_seed |-> Free("0")]
    [] target = "los" -> Project @@
         [maximum_eirp |-> Free("none"),
          minimum_mcs_of_backhaul_links |-> NonNeg("none"), minimum_mcs_of_access_links |-> NonNeg("none"),
          maximum_los_distance |-> Free("200"), minimum_los_distance |-> AtLeast("50", "5"),
          maximum_elevation_scan_angle |-> Within("25", "0", "90"), mounting_height_above_rooftop |-> NonNeg("1.5"),
          default_dn_height_on_pole |-> NonNeg("5"), default_cn_height_on_pole |-> NonNeg("5"),
          default_pop_height_on_pole |-> NonNeg("5"), fresnel_radius |-> Pos("1"),
          los_confidence_threshold |-> Within("0.8", "0", "1"), num_processors |-> Free("none"),
          max_corner_angle |-> R("none", "0", TRUE, "180", TRUE)]
    [] OTHER -> [x \in {} |-> Free("0")]

Switches(target) ==
  CASE target = "optimizer" ->
         [enable_cn_demand |-> "true", enable_uniform_demand |-> "false", enable_manual_demand |-> "false",
          maximize_common_bandwidth |-> "false", always_active_pops |-> "true", enable_legacy_redundancy_method |-> "true"]
    [] target = "los" -> [use_ellipsoidal_los_model |-> "false", dn_deployment |-> "true", detect_highest |-> "true",
                          detect_centers |-> "false", detect_corners |-> "true"]
    [] target = "system" -> [debug_mode |-> "false", log_to_stderr |-> "true"]
    [] OTHER -> [x \in {} |-> ""]

\* [d: default, v: the documented values]
Choices(target) ==
  CASE target = "optimizer" ->
         [redundancy_level |-> [d |-> "MEDIUM", v |-> {"NONE", "LOW", "MEDIUM", "HIGH"}],
          topology_routing |-> [d |-> "none", v |-> {"SHORTEST_PATH", "MCS_COST_PATH", "DPA_PATH"}]]
    [] target = "system" -> [logger_level |-> [d |-> "INFO", v |-> {"NOTSET", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}]]
    [] OTHER -> [x \in {} |-> [d |-> "", v |-> {}]]

\* [d: default, v: accepted file extensions, {} = any text]
Texts(target) ==
  CASE target = "system" -> [output_dir |-> [d |-> "./", v |-> {}], log_file |-> [d |-> "none", v |-> {}]]
    [] target = "optimizer" -> [candidate_topology_file_path |-> [d |-> "none", v |-> {"kml", "kmz", "zip"}]]
    [] target = "data" ->
         [boundary_polygon_file_path |-> [d |-> "none", v |-> {"kml", "kmz"}],
          building_outline_file_path |-> [d |-> "none", v |-> {"kml", "kmz", "zip"}],
          dtm_file_path |-> [d |-> "none", v |-> {"tif"}], dhm_file_path |-> [d |-> "none", v |-> {"tif"}],
          dsm_file_paths |-> [d |-> "none", v |-> {"tif", "tiff"}],
          site_file_path |-> [d |-> "none", v |-> {"kml", "kmz", "csv"}],
          base_topology_file_path |-> [d |-> "none", v |-> {"kml", "kmz"}]]
    [] OTHER -> [x \in {} |-> [d |-> "", v |-> {}]]

DeviceNumbers == [node_capex |-> NonNeg("250"), number_of_nodes_per_site |-> AtLeast("auto", "1")]
SectorNumbers ==
  [antenna_boresight_gain |-> NonNeg("30"), maximum_tx_power |-> NonNeg("16"), number_sectors_per_node |-> AtLeast("1", "1"),
   horizontal_scan_range |-> Within("70", "0", "360"), tx_diversity_gain |-> NonNeg("0"), rx_diversity_gain |-> NonNeg("0"),
   tx_miscellaneous_loss |-> NonNeg("0"), rx_miscellaneous_loss |-> NonNeg("0"),
   minimum_mcs_level |-> NonNeg("none"), minimum_tx_power |-> Free("none")]

Num(S, given, x) == IF x \in DOMAIN given THEN given[x] ELSE S[x].d
InRange(r, v) ==
  v \in {"none", "auto"} \/
  ((r.lo = "" \/ (IF r.ls THEN FLt(r.lo, v) ELSE FLe(r.lo, v))) /\ (r.hi = "" \/ (IF r.hs THEN FLt(v, r.hi) ELSE FLe(v, r.hi))))
AllInRange(S, given) == \A x \in DOMAIN S : InRange(S[x], Num(S, given, x))
On(c, x) == (IF x \in DOMAIN c.given THEN c.given[x] ELSE Switches(c.target)[x]) = "true"
Val(c, x) == Num(Numbers(c.target), c.given, x)

\* ---- devices --------------------------------------------------------------
Kind(d) == IF "device_type" \in DOMAIN d.given THEN d.given.device_type ELSE "DN"
NodesOf(d) == LET n == Num(DeviceNumbers, d.given, "number_of_nodes_per_site")
              IN IF n # "auto" THEN n ELSE IF Kind(d) = "CN" THEN "1" ELSE "4"
SP(d, x) == Num(SectorNumbers, d.given, x)

DefaultTable == LET r(m, s, t, b) == [mcs |-> m, snr |-> s, mbps |-> t, back |-> b] IN
  <<r("3","3","0","0"), r("4","4.5","67.5","0"), r("5","5","115","0"), r("6","5.5","260","0"), r("7","7.5","452.5","0"),
    r("8","9","645","0"), r("9","12","741.25","0"), r("10","14","1030","2"), r("11","16","1415","4"), r("12","18","1800","6")>>
TableOf(d) == IF d.rows = <<>> THEN DefaultTable ELSE d.rows[1]
Keep(d, r) == /\ LET p == SP(d, "minimum_tx_power") IN p = "none" \/ FLe(p, FSub(SP(d, "maximum_tx_power"), r.back))
              /\ LET m == SP(d, "minimum_mcs_level") IN m = "none" \/ FLe(m, r.mcs)
Usable(d) == SelectSeq(TableOf(d), LAMBDA r : Keep(d, r))
\* a higher class never needs a lower signal, carries less or backs off less
Contradicts(t) == \E i, j \in DOMAIN t : FLt(t[i].mcs, t[j].mcs)
                    /\ (FLt(t[j].snr, t[i].snr) \/ FLt(t[j].mbps, t[i].mbps) \/ FLt(t[j].back, t[i].back))
\* every class strictly above the ones listed before it, or all below
Clear(t) == \A i, j \in DOMAIN t : i < j => FLt(t[i].mcs, t[j].mcs) /\ FLt(t[i].snr, t[j].snr)
                                              /\ FLe(t[i].mbps, t[j].mbps) /\ FLe(t[i].back, t[j].back)
DeviceBad(d) ==
  \/ d.given.device_sku = "" \/ Kind(d) \notin {"DN", "CN"}
  \/ ~AllInRange(DeviceNumbers, d.given) \/ ~AllInRange(SectorNumbers, d.given)
  \/ Kind(d) = "CN" /\ ~(FLe(NodesOf(d), "1") /\ FLe("1", NodesOf(d)))
  \/ FLt("360", FMul(FMul(SP(d, "horizontal_scan_range"), SP(d, "number_sectors_per_node")), NodesOf(d)))
  \/ SP(d, "minimum_tx_power") # "none" /\ FLt(SP(d, "maximum_tx_power"), SP(d, "minimum_tx_power"))
  \/ TableOf(d) = <<>> \/ Contradicts(TableOf(d)) \/ Usable(d) = <<>>
DeviceUnsure(d) == ~Clear(TableOf(d)) /\ ~Contradicts(TableOf(d))

\* ---- documents -------------------------------------------------------------
ExtOk(c, x) == LET T == Texts(c.target)[x] IN x \notin DOMAIN c.given \/ T.v = {} \/ \A i \in DOMAIN c.ext[x] : c.ext[x][i] \in T.v
Bad(c) ==
  \/ c.illegal
  \/ ~AllInRange(Numbers(c.target), c.given)
  \/ \E x \in DOMAIN Choices(c.target) : x \in DOMAIN c.given /\ c.given[x] \notin Choices(c.target)[x].v
  \/ \E x \in DOMAIN Texts(c.target) : ~ExtOk(c, x)
  \/ c.target \in {"optimizer", "los"} /\
       (\/ c.dev = <<>> \/ \E i \in DOMAIN c.dev : DeviceBad(c.dev[i])
        \/ \E i, j \in DOMAIN c.dev : i # j /\ c.dev[i].key = c.dev[j].key)
  \/ c.target = "optimizer" /\
       (\/ ~(On(c, "enable_cn_demand") \/ On(c, "enable_uniform_demand") \/ On(c, "enable_manual_demand"))
        \/ On(c, "enable_uniform_demand") /\ ~FLt("0", Val(c, "demand_spacing"))
        \/ (On(c, "enable_uniform_demand") \/ On(c, "enable_manual_demand")) /\ ~FLt("0", Val(c, "demand_connection_radius"))
        \/ FLt(Val(c, "dn_total_sector_limit"), Val(c, "dn_dn_sector_limit")))
  \/ c.target = "los" /\ ~FLt(Val(c, "minimum_los_distance"), Val(c, "maximum_los_distance"))
  \/ c.target = "data" /\
       (\/ "boundary_polygon_file_path" \notin DOMAIN c.given
        \/ {"building_outline_file_path", "base_topology_file_path"} \subseteq DOMAIN c.given)
Unsure(c) == c.target \in {"optimizer", "los"} /\ \E i \in DOMAIN c.dev : DeviceUnsure(c.dev[i])

Same(a, b) == IF a = "none" \/ b = "none" THEN a = b ELSE FNear(a, b, "1e-12")
ValueFails(c) ==
  {"Value_" \o x : x \in {y \in DOMAIN Numbers(c.target) : ~Same(c.value[y], Val(c, y))}}
  \union {"Value_" \o x : x \in {y \in DOMAIN Switches(c.target) : (c.value[y] = "true") # On(c, y)}}
  \union {"Value_" \o x : x \in {y \in DOMAIN Choices(c.target) :
            c.value[y] # (IF y \in DOMAIN c.given THEN c.given[y] ELSE Choices(c.target)[y].d)}}
  \union {"Value_" \o x : x \in {y \in DOMAIN Texts(c.target) :
            c.value[y] # (IF y \in DOMAIN c.given THEN c.given[y] ELSE Texts(c.target)[y].d)}}
DevFails(c, i) ==
  LET d == c.dev[i]  o == c.devs[i]  t == Usable(d)
  IN {"Device_" \o x : x \in {y \in DOMAIN SectorNumbers : ~Same(o.value[y], SP(d, y))}}
     \union (IF Same(o.value.node_capex, Num(DeviceNumbers, d.given, "node_capex")) THEN {} ELSE {"Device_node_capex"})
     \union (IF Same(o.value.number_of_nodes_per_site, NodesOf(d)) THEN {} ELSE {"Device_nodes"})
     \union (IF o.value.device_type = Kind(d) THEN {} ELSE {"Device_type"})
     \union (IF o.value.device_sku = d.given.device_sku THEN {} ELSE {"Device_sku"})
     \union {"ProjectWide_" \o x : x \in {y \in DOMAIN Project : ~Same(o.value[y], Val(c, y))}}
     \union (IF Len(o.table) = Len(t) /\ \A k \in DOMAIN t :
                  /\ Same(o.table[k].mcs, t[k].mcs) /\ Same(o.table[k].snr, t[k].snr)
                  /\ Same(o.table[k].mbps, t[k].mbps) /\ Same(o.table[k].back, t[k].back)
             THEN {} ELSE {"Device_table"})

Fails(c) ==
  IF c.status # "ok"
  THEN (IF Bad(c) \/ Unsure(c) THEN {} ELSE {"ValidRefused"})
       \union (IF c.status \in {"ConfigException", "DataException"} THEN {} ELSE {"RefusedUnclearly"})
  ELSE (IF Bad(c) THEN {"InvalidAccepted"}
        ELSE ValueFails(c)
             \union (IF c.target \in {"optimizer", "los"}
                     THEN IF Len(c.devs) # Len(c.dev) THEN {"DevicesLost"} ELSE UNION {DevFails(c, i) : i \in DOMAIN c.dev}
                     ELSE {}))
       \union (IF c.again = "same" THEN {} ELSE {"RoundTrip"})
=============================================================================
