"""Radios, radio networks and their records for spec/Radio.tla."""
import math

from harness import world as w
from harness.nets import legal_link_status
from harness.world import ST, Link, PolarityType, Sector, Topology
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
from terragraph_planner.common.structs import MCSMap

ACT = ("PROPOSED", "EXISTING")


def table(rng, gaps=True):
    """A modulation table: classes, thresholds, rates and back-offs rise together."""
    if rng.random() < 0.5:
        return list(DEFAULT_MCS_SNR_MBPS_MAP)
    mcs = rng.randint(1, 4)
    snr, mbps, back = rng.uniform(-2, 4), 0.0, 0.0
    out = []
    for _ in range(rng.randint(2, 8)):
        out.append(MCSMap(mcs=mcs, snr=round(snr, 2), mbps=mbps, tx_backoff=back))
        mcs += rng.choice([1, 1, 2, 3]) if gaps else 1
        snr += rng.choice([0.5, 1.5, 2, 4])
        mbps += rng.choice([67.5, 200, 385])
        back += rng.choice([0, 0, 1, 2.5])
    if rng.random() < 0.3:
        rng.shuffle(out)
    return out


def scan(rng):
    az = sorted(rng.sample([-60, -45, -30, -15, 0, 15, 30, 45, 60, -37, 22], rng.randint(2, 6)))
    el = sorted(rng.sample([-20, -12, -5, 0, 5, 12, 20], rng.randint(1, 4)))
    top = rng.choice([0.0, 28.0, -1.0])
    # zero is a legal table value and must not be mistaken for a missing one
    return {float(a): {float(e): (0.0 if rng.random() < 0.15 else round(top - abs(a) * 0.07 - abs(e) * 0.1 + rng.uniform(-1, 0), 3)) for e in el} for a in az}


def beam(rng):
    return {"r": rng.choice([0.1, 0.3, 0.05]), "l": rng.choice([0.1, 0.2]), "u": rng.choice([0.0, 0.15]), "d": rng.choice([0.02, 0.1])}


def beam_table(b):
    def side(p, n):
        return {k: -p * k if k <= 180 else -n * (360 - k) for k in range(360)}

    return {"HW": [side(b["r"], b["l"]), side(b["u"], b["d"])]}


def device(rng, sku, dtype="DN", nodes=4, patterns=True, extreme=False):
    mx = rng.choice([16.0, 16.0, 10.0, 25.0, 0.0])
    mn = rng.choice([None, None, mx - 12, mx - 4, mx, -5.0]) if rng.random() < 0.7 else None
    if mn is not None and mn > mx:
        mn = mx
    avail = rng.choice([99.9, 99.9, 99.0, 99.999, 95.0, 50.0] + ([0.0] if extreme else []))
    d = w.device(
        sku, dtype, nodes=nodes,
        antenna_boresight_gain=rng.choice([30.0, 28.0, 20.0]), maximum_tx_power=mx, minimum_tx_power=mn,
        carrier_frequency=rng.choice([60000.0, 60480.0, 58320.0, 66960.0, 64800.0] + ([5800.0, 52000.0, 68000.0, 70000.0] if extreme else [])),
        thermal_noise_power=rng.choice([-81.0, -75.0]), noise_figure=rng.choice([7.0, 0.0, 5.5]),
        rain_rate=rng.choice([30.0, 60.0, 8.0] + ([0.0, 120.0] if extreme else [])), link_availability_percentage=avail,
        tx_diversity_gain=rng.choice([0.0, 3.0]), rx_diversity_gain=rng.choice([0.0, 2.0]),
        tx_miscellaneous_loss=rng.choice([0.0, 1.5]), rx_miscellaneous_loss=rng.choice([0.0, 0.7]),
        number_sectors_per_node=rng.choice([1, 1, 2]), horizontal_scan_range=rng.choice([70.0, 90.0]) if dtype == "DN" and nodes <= 2 else 40.0,
    )
    sp = d.sector_params
    sp.mcs_map = table(rng)
    sp.scan_pattern_data = scan(rng) if patterns and rng.random() < 0.6 else None
    d.beam = beam(rng) if patterns and rng.random() < 0.6 else None
    sp.antenna_pattern_data = beam_table(d.beam) if d.beam else None
    return d


def planning(rng, devs, **kw):
    """Optimizer settings; they make the radio environment the same everywhere,
    after which receivers may still differ in their noise."""
    own = [(d.sector_params.thermal_noise_power, d.sector_params.noise_figure) for d in devs]
    s = rng.choice(devs).sector_params
    p = OptimizerParams(device_list=devs, carrier_frequency=s.carrier_frequency, rain_rate=s.rain_rate,
                        link_availability_percentage=s.link_availability_percentage,
                        thermal_noise_power=s.thermal_noise_power, noise_figure=s.noise_figure, **kw)
    if rng.random() < 0.6:
        for d, (t, n) in zip(devs, own):
            d.sector_params.thermal_noise_power, d.sector_params.noise_figure = t, n
    return p


def radio(d):
    s = d.sector_params
    return {
        "boresight": float(s.antenna_boresight_gain), "txdiv": float(s.tx_diversity_gain), "rxdiv": float(s.rx_diversity_gain),
        "txloss": float(s.tx_miscellaneous_loss), "rxloss": float(s.rx_miscellaneous_loss), "freq": float(s.carrier_frequency),
        "thermal": float(s.thermal_noise_power), "nf": float(s.noise_figure), "rain": float(s.rain_rate),
        "avail": float(s.link_availability_percentage), "max": float(s.maximum_tx_power),
        "min": "none" if s.minimum_tx_power is None else float(s.minimum_tx_power),
        "mcs": [{"mcs": m.mcs, "snr": float(m.snr), "mbps": float(m.mbps), "backoff": float(m.tx_backoff)} for m in s.mcs_map],
        "scan": [] if s.scan_pattern_data is None else [
            {"az": a, "row": [{"el": e, "gain": float(g)} for e, g in r.items()]} for a, r in s.scan_pattern_data.items()],
        "ant": [{k: float(v) for k, v in d.beam.items()}] if d.beam else [],
    }


def state(o):
    return {"mcs": int(o.mcs_level), "cap": float(o.capacity), "txp": float(o.tx_power), "rsl": float(o.rsl_dbm), "snr": float(o.snr_dbm), "sinr": float(o.sinr_dbm)}


class RadioNet:
    """A random network with sectors, channels, polarities and link states."""

    def __init__(self, rng, n=(3, 6), inactive=0.15, wired=0.08, unsectored=0.08, span=(120, 350), devs=None):
        self.rng = rng
        t = self.t = Topology()
        self.devs = devs or [device(rng, "DN_A", nodes=rng.choice([1, 2, 4])), device(rng, "DN_B", nodes=2), device(rng, "CN_A", "CN")]
        dns = [d for d in self.devs if d.device_type.name == "DN"]
        cns = [d for d in self.devs if d.device_type.name == "CN"]
        span = rng.uniform(*span)
        self.site, self.sec, self.lk = {}, {}, {}
        k = rng.randint(*n)
        for i in range(k):
            ty = "POP" if i == 0 else rng.choice(["DN", "DN", "DN", "CN", "CN"])
            if cns == [] and ty == "CN":
                ty = "DN"
            st = rng.choice(ACT) if rng.random() >= inactive else rng.choice(["CANDIDATE", "UNAVAILABLE", "UNREACHABLE"])
            o = w.site(ty, w.at(rng.uniform(-span, span), rng.uniform(-span, span), rng.choice([5.0, 8.0, rng.uniform(0, 40)])),
                       rng.choice(cns if ty == "CN" else dns), st, f"s{i}")
            o.polarity = rng.choice([PolarityType.ODD, PolarityType.EVEN] * 4 + [PolarityType.UNASSIGNED]) if ty != "CN" else PolarityType.UNASSIGNED
            t.add_site(o)
            self.site[f"s{i}"] = o
            m = 1 if ty == "CN" else rng.randint(1, 3)
            base = rng.uniform(0, 360)
            for node in range(m):
                ss = o.status_type
                if o.status_type.name in ACT and rng.random() < 0.1:
                    ss = ST["CANDIDATE"]
                x = Sector(o, node, 0, (base + 360.0 / m * node + rng.uniform(-20, 20)) % 360, status_type=ss, channel=0)
                self.sec[f"s{i}_{node}"] = x
                t.add_sector(x)
        names = list(self.site)
        chan = rng.choice([[0], [0, 1], [0, 1, -1]])
        for x in self.sec.values():
            x.channel = rng.choice(chan)
        for a in names:
            for b in names:
                if a == b or self.site[a].site_type.name == "CN" or rng.random() < 0.12:
                    continue
                sa, sb = self.site[a].status_type.name, self.site[b].status_type.name
                wl = self.site[b].site_type.name == "CN" or rng.random() >= wired
                p = q = None
                if wl and rng.random() >= unsectored:
                    p, q = self.near(a, b), self.near(b, a)
                st = self.status(sa, sb, p, q, wl)
                if st is None:
                    continue
                kw = {"tx_sector": p, "rx_sector": q} if p else {}
                o = Link(self.site[a], self.site[b], is_wireless=wl, status_type=ST[st], **kw)
                o.is_redundant = rng.random() < 0.08
                t.add_link(o)
                self.lk[f"{a}>{b}"] = o

    def status(self, sa, sb, p, q, wl):
        rng = self.rng
        if not {sa, sb} <= set(ACT):
            return legal_link_status(sa, sb, rng, ["CANDIDATE"])
        if wl and p and (p.channel != q.channel or not {p.status_type.name, q.status_type.name} <= set(ACT)):
            return "CANDIDATE"
        if wl and not p:
            return "CANDIDATE"
        r = rng.random()
        if r < 0.3:
            return "CANDIDATE"
        if r < 0.36:
            return "UNAVAILABLE"
        return "EXISTING" if sa == sb == "EXISTING" and rng.random() < 0.4 else "PROPOSED"

    def near(self, a, b):
        x, y = self.site[a], self.site[b]
        az = math.degrees(math.atan2((y.longitude - x.longitude) * math.cos(math.radians(x.latitude)), y.latitude - x.latitude))
        own = [x for k, x in self.sec.items() if k.startswith(a + "_")]
        return min(own, key=lambda x: abs((x.ant_azimuth - az + 180) % 360 - 180))

    def record(self, states=True):
        names = {id(x): k for k, x in self.sec.items()}
        sname = {o.site_id: k for k, o in self.site.items()}
        c = {
            "radio": {d.device_sku: radio(d) for d in self.devs},
            "site": {k: {"type": o.site_type.name, "status": o.status_type.name, "pol": o.polarity.name, "radio": o.device.device_sku} for k, o in self.site.items()},
            "sec": {"none": "x", **{k: {"site": sname[x.site.site_id], "status": x.status_type.name, "channel": int(x.channel)} for k, x in self.sec.items()}},
            "link": {"none": "x"},
        }
        for k, o in self.lk.items():
            ts = o.tx_sector
            rad = o.is_wireless and ts is not None
            c["link"][k] = {
                "tx": sname[o.tx_site.site_id], "rx": sname[o.rx_site.site_id], "wireless": o.is_wireless, "status": o.status_type.name,
                "ts": names[id(ts)] if ts else "none", "rs": names[id(o.rx_sector)] if ts else "none", "redundant": o.is_redundant,
                "dist": math.hypot(w_dist(o), o.rx_site.altitude - o.tx_site.altitude),
                "taz": dev(o.tx_beam_azimuth, ts.ant_azimuth) if rad else 0.0,
                "raz": dev(o.rx_beam_azimuth, o.rx_sector.ant_azimuth) if rad else 0.0,
                "el": math.degrees(math.atan2(o.rx_site.altitude - o.tx_site.altitude, w_dist(o))),
                **state(o),
            }
        return c


def dev(a, b):
    return 180.0 - (180.0 - (a - b)) % 360.0


def w_dist(o):
    """Ground distance between the ends of a link, independently computed."""
    a, b = o.tx_site, o.rx_site
    p, q = math.radians(a.latitude), math.radians(b.latitude)
    dl = math.radians(b.longitude - a.longitude)
    h = math.sin((q - p) / 2) ** 2 + math.cos(p) * math.cos(q) * math.sin(dl / 2) ** 2
    return 2 * 6371000.0 * math.asin(math.sqrt(h))
