"""Memory accesses of the real code, recorded by valgrind's lackey, as traces for TraceMemory.tla."""
import os, re, subprocess
import hw

SENSITIVE = 65536

def record(exe, behs, timeout=300):
    """[{'id','ev'}]: one trace a behaviour; equal accesses of an operation are recorded once."""
    sc, out, lk = hw.fresh('.txt'), hw.fresh('.out'), hw.fresh('.lk')
    open(sc, 'w').write(hw.script_text(behs))
    # lackey writes to the pipe; instruction fetches are dropped on the way
    cmd = "valgrind --tool=lackey --trace-mem=yes --basic-counts=no --log-fd=9 '%s' mem '%s' 9>&1 >'%s' | grep -a '^ [LSM]' > '%s'; echo ${PIPESTATUS[0]}" % (exe, sc, out, lk)
    rc, o, e = hw.sh(['bash', '-c', cmd], timeout=timeout, ok=None)
    info, ops, ended = {}, [], False
    for line in open(out):
        p = line.split()
        if p[0] == 'OP': ops.append((p[1], p[2]) + tuple(map(int, p[3:])))
        elif p[0] == 'END': ended = True
        elif p[0] in ('MARK', 'ARENA', 'STACK', 'CTX'): info[p[0]] = tuple(map(int, p[1:]))
    if not ended:
        return None, 'valgrind: exit %s' % o.strip()
    mark = info['MARK'][0]
    m0, m1 = ' S %08x,8\n' % mark, ' S %08x,8\n' % (mark + 8)
    abase, alen = info['ARENA']
    stack = info['STACK'][0]
    cbase, csize = info['CTX']
    traces, cur, k = {}, None, 0
    order = []
    def flush(lines):
        nonlocal k
        bid, code, sa, sl, oa, on, tag = ops[k]; k += 1
        acc = []
        for ln in lines:
            a, n = ln[3:].split(',')
            a, n, kind = int(a, 16), int(n), ln[1]
            if abase - SENSITIVE <= a < abase + alen + SENSITIVE:
                acc.append(['slice', a - sa if sa else a - abase + 1000000, n, kind])
            elif oa and oa <= a < oa + on:
                acc.append(['obj', a - oa, n, kind])
            elif stack - 4 * SENSITIVE <= a < stack + SENSITIVE:
                continue
            elif a == tag and kind == 'L' and n <= 8:
                continue  # the driver asks which object this is
            elif oa and cbase <= a < cbase + csize:
                acc.append(['obj', a - oa, n, kind])
        seen = []
        for x in sorted(map(tuple, acc)):
            if not seen or seen[-1] != x: seen.append(x)
        if bid not in traces: traces[bid] = []; order.append(bid)
        traces[bid].append({'op': code, 'len': sl, 'size': on, 'acc': [list(x) for x in seen]})
    with open(lk) as f:
        for ln in f:
            if cur is None:
                if ln == m0: cur = set()
            elif ln == m1:
                flush(cur); cur = None
            else:
                cur.add(ln)
    os.unlink(lk)
    if k != len(ops):
        raise hw.ToolError('lackey: %d operations seen of %d' % (k, len(ops)))
    return [{'id': b, 'ev': traces[b]} for b in order], None
