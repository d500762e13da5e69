"""Building planner objects for the drivers and projecting them for the spec."""
import logging
import math
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import terragraph_planner  # noqa: E402,F401
from terragraph_planner.common.configuration.configs import (  # noqa: E402
    DeviceData,
    SectorParams,
)
from terragraph_planner.common.configuration.enums import (  # noqa: E402
    DeviceType,
    LocationType,
    PolarityType,
    SiteType,
    StatusType,
)
from terragraph_planner.common.geos import GeoLocation  # noqa: E402
from terragraph_planner.common.topology_models.demand_site import DemandSite  # noqa: E402
from terragraph_planner.common.topology_models.link import Link  # noqa: E402
from terragraph_planner.common.topology_models.sector import Sector  # noqa: E402
from terragraph_planner.common.topology_models.site import Site  # noqa: E402
from terragraph_planner.common.topology_models.topology import Topology  # noqa: E402

ST = StatusType
STATUS = ["PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"]
BASE_LAT, BASE_LON = 37.48, -122.15


def device(sku="DN_A", dtype="DN", nodes=4, **kw):
    sp = kw.pop("sector_params", None)
    if sp is None:
        spk = {k: kw.pop(k) for k in list(kw) if k not in ("node_capex",)}
        sp = SectorParams(**spk)
    return DeviceData(
        device_sku=sku,
        device_type=DeviceType[dtype],
        sector_params=sp,
        number_of_nodes_per_site=1 if dtype == "CN" else nodes,
        **kw,
    )


def at(x=0.0, y=0.0, alt=None, lat0=BASE_LAT, lon0=BASE_LON):
    """A location x metres east and y metres north of a base point."""
    lat = lat0 + y / 111194.9266
    lon = lon0 + x / (111194.9266 * math.cos(math.radians(lat0)))
    lon = lon - 360 if lon > 180 else lon + 360 if lon < -180 else lon
    return GeoLocation(latitude=lat, longitude=lon, altitude=alt)


def site(kind, loc, dev, status="CANDIDATE", name="", building=None, subs=None, ltype=None):
    lt = LocationType[ltype] if ltype else (LocationType.ROOFTOP if building is not None else LocationType.STREET_LEVEL)
    return Site(
        site_type=SiteType[kind],
        location=loc,
        device=dev,
        status_type=ST[status],
        location_type=lt,
        building_id=building,
        name=name,
        number_of_subscribers=subs,
    )


from terragraph_planner.common.configuration.enums import LinkType  # noqa: E402

LinkTypeName = [x.name for x in LinkType]
