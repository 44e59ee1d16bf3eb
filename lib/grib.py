"""GRIB messages made by the driver (vgrib), memoised per process."""
import json
from vf import *
_memo = {}
def message(sample="GRIB2", values=(1, 2, 3, 4), **mars):
    """(bytes, MARS keys as eccodes reads them)."""
    k = (sample, tuple(values), tuple(sorted(mars.items())))
    if k not in _memo:
        if len(_memo) > 20000: _memo.clear()
        s = [["setLocalDefinition", "1"]] if sample == "GRIB2" else []
        m = dict(mars); lev = m.pop("levtype", "pl")
        for n in ("class", "stream", "expver", "type"): s.append([n, str(m.pop(n, {"class": "od", "stream": "oper", "expver": "0001", "type": "an"}[n]))])
        if sample == "GRIB2": s.append(["typeOfLevel", {"pl": "isobaricInhPa", "sfc": "surface"}[lev]])
        else: s.append(["levtype", lev])
        if "levelist" in m: s.append(["level", str(m.pop("levelist"))])
        if "param" in m: s.append(["paramId", str(m.pop("param"))])
        s += [[n, str(v)] for n, v in m.items()]
        s.append(["values", list(values)])
        r = driver({}, "plain", slot=90, exe="vgrib").raw("grib", sample=sample, set=s)
        if not r["ok"]: raise HarnessError(str(r))
        _memo[k] = (bytes.fromhex(r["hex"]), r["mars"])
    return _memo[k]
def decoded(data, memo={}):
    """(MARS keys, values, length) of a message."""
    if data not in memo:
        if len(memo) > 20000: memo.clear()
        r = driver({}, "plain", slot=90, exe="vgrib").raw("grib", hex=data.hex(), set=[], values=1)
        memo[data] = (r["mars"], r["values"], len(data)) if r["ok"] else None
    return memo[data]
