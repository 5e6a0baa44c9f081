#!/bin/bash
# developer helper: run.sh ENTRY SECS [engine options]
V=$(cd "$(dirname "$0")" && pwd)
e=$1; s=${2:-60}; shift 2
timeout $((s*4+100)) $V/.work/target-engine/release/symwasm --wasm $V/.work/target-wasm/wasm64-unknown-unknown/release/${CRATE:-harness}.wasm --entry $e --secs $s --threads 8 --solver-ms 10000 "$@" 2>/tmp/run.err | python3 -c '
import sys,json
for l in sys.stdin:
    r=json.loads(l); r.pop("functions"); 
    for k in ("samples",): r.pop(k)
    r["incomplete"]=r["incomplete"][:3]
    r["reach"]={k:v["paths"] for k,v in r["reach"].items()}
    c=r.pop("cex"); m=r.pop("check_msgs")
    print({k:r[k] for k in ("entry","paths","forks","checks","queries","unknown","solver_s","wall_s","incomplete","reach")})
    seen=set()
    for x in c:
        if x["msg"] in seen: continue
        seen.add(x["msg"])
        print("   CEX",x["kind"],x["msg"][:300],x["bytes"])
'
grep -v '^$' /tmp/run.err | cut -c1-400 | head -${ERR:-15}
