#!/usr/bin/env python3
"""check.py <property>: decides one property (VERIF_TIER=quick|thorough, VERIF_SEED). See DESIGN.md."""
import concurrent.futures as cf
import importlib, json, os, random, re, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hw
from hw import QUICK, SEED, ToolError, BuildFailed, log, tla

class Violation(Exception):
    pass

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.states = self.transitions = self.traces = 0
        self.samples, self.cov, self.assume = [], {}, []
        self.rng = random.Random('%s/%d' % (pid, SEED))
        self.pool = cf.ThreadPoolExecutor(12)
        self.models, self.known_hit = [], []
        self.level = 'model_checking'
        self.t0 = time.time()

    # ---- findings
    def known(self):
        out = []
        p = os.path.join(hw.VERIF, 'known_findings.txt')
        for line in open(p) if os.path.exists(p) else []:
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line)
            if m and m.group(1) == self.pid:
                out.append((m.group(2), m.group(3)))
        return out

    def violation(self, reason, replay, key=None):
        """replay: JSON-able description that `check.py replay FILE` can run again."""
        for k, text in self.known():
            if key == k:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, text), flush=True)
                return
        d = os.path.join(hw.VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.pid, int(time.time() * 1000)))
        json.dump({'property': self.pid, 'reason': reason, 'repo': hw.repo_hash(), 'replay': replay}, open(path, 'w'), indent=1)
        log(reason)
        raise Violation(path + '\t' + reason)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def count(self, name, n):
        self.cov[name] = self.cov.get(name, 0) + n

    # ---- design level
    def model(self, name, module, cfgtext, expect=None, workers=2, timeout=600, args=(), env=None):
        """Model-checks the specification itself, in the background. expect: a property that must be violated."""
        def job():
            r = hw.tlc(module, cfgtext, env=env, workers=workers, timeout=timeout, args=args)
            if expect is None:
                if not r.ok:
                    raise ToolError('model %s: %s' % (name, r.out[-2500:]))
            elif r.ok or not re.search(r'(Invariant|property|Property|properties) .*%s.* (is|was) violated|%s' % ('.*' if expect == '*' else expect, '$^'), r.out):
                raise ToolError('model %s should violate %s: %s' % (name, expect, r.out[-2500:]))
            log('model %s: %d states, %d distinct%s' % (name, r.generated, r.distinct, ' (violates %s, as it must)' % expect if expect else ''))
            return r
        self.models.append((name, self.pool.submit(job)))

    def join_models(self):
        for name, f in self.models:
            r = f.result()
            self.states += r.distinct
            self.transitions += r.generated
        self.cov['models'] = [n for n, _ in self.models]
        self.models = []

    # ---- trace validation
    def relational(self, groups, instances, exes, merge=False, alike=False, guard=False, pre=(), timeout=400, what='', key=None, **opts):
        """groups: [(id, ops with type placeholders)]; instances: [(lane, {placeholder: type})].
        TLC judges every distinct trace; merge puts all instances' values into one trace (alike: up to where all of them panic)."""
        runs = []
        by_lane = {}
        for i, (lane, tm) in enumerate(instances):
            by_lane.setdefault(lane, []).append((i, tm))
        def go(lane):
            behs = []
            for i, tm in by_lane[lane]:
                for gid, ops in groups:
                    behs.append(('%d/%s' % (i, gid), [retype(o, tm) for o in ops]))
            ln = hw.LANES[lane]
            return hw.run_lane(lane, exes[lane], behs, guard=guard, pre=pre, timeout=timeout)
        toks = {}
        for res in self.pool.map(go, list(by_lane)):
            toks.update(res)
        traces, where = [], []
        index = {}
        for gid, ops in groups:
            lists = [(i, toks['%d/%s' % (i, gid)]) for i in range(len(instances))]
            if merge and alike:
                # where all of them panic there is nothing to compare; that is for C08
                n = min(next((j for j, x in enumerate(t) if x == '!'), len(t)) for _, t in lists)
                if all(len(t) > n and t[n] == '!' for _, t in lists): lists = [(i, t[:n]) for i, t in lists]
            if merge:
                cand = [([i for i, _ in lists], self._events(ops, [t for _, t in lists], [hw.LANES[instances[i][0]].word for i, _ in lists]))]
            else:
                cand = [([i], self._events(ops, [t], [hw.LANES[instances[i][0]].word])) for i, t in lists]
            for who, ev in cand:
                k = json.dumps(ev)
                if k in index:
                    where[index[k]][1].extend(who)
                else:
                    index[k] = len(traces)
                    traces.append({'id': gid, 'ev': ev})
                    where.append([gid, list(who)])
        self.count('implementation_runs', len(groups) * len(instances))
        self.count('events', sum(len(t['ev']) for t in traces))
        log('%s %d groups x %d instances: %d distinct traces, %d events' % (what, len(groups), len(instances), len(traces), sum(len(t['ev']) for t in traces)))
        r, reason, idx = hw.validate(traces, **opts)
        if reason:
            gid, who = where[idx]
            ops = dict(groups)[gid]
            self.violation('%s [%s]' % (reason, ', '.join(inst_name(instances[i]) for i in who[:6])),
                           {'kind': 'relational', 'ops': ops, 'instances': [instances[i] for i in who], 'opts': opts, 'merge': merge, 'guard': guard,
                            'trace': traces[idx]}, key=key)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += sum(len(w) for _, w in where)
        if traces:
            t = traces[self.rng.randrange(len(traces))]
            self.sample({'trace': t['id'], 'events': [compact(e) for e in t['ev'][:8]]})

    def _events(self, ops, toklists, words):
        ev = []
        n = min(len(ops), max(len(t) for t in toklists))
        for i in range(n):
            vals, al = [], 0
            for t in toklists:
                v, a = hw.token(t, i)
                al = max(al, a)
                # after a panic or crash the lane says nothing any more
                if i >= len(t):
                    continue
                if ops[i][0] == 'G' and v not in ('!', 'X', 'H', '-', 'err'):
                    v = 'ok'
                if v not in vals:
                    vals.append(v)
            ev.append(hw.event(ops[i], vals, al, words[0]))
            if any(v in ('!', 'X', 'H') for v in vals):
                break
        return ev

    # ---- native search against the specification's arithmetic, judged by TLC
    def oracle(self):
        import tla2rs
        with hw._lock:
            if not hasattr(self, '_oracle'):
                p = os.path.join(hw.workdir(), 'oracle.rs')
                text = tla2rs.generate(os.path.join(hw.SPEC, 'HighwayHash.tla'))
                if not os.path.exists(p) or open(p).read() != text:
                    open(p, 'w').write(text)
                self._oracle = p
            return self._oracle
    def oracle_search(self, lane, exe, types, prof, ms, threads=8):
        rc, out, err = hw.sh(hw.LANES[lane].runner + [exe, 'c01', types, prof, str(SEED), str(ms), str(threads)], timeout=ms / 1000 + 120, ok=None)
        st, behs, cur = None, [], None
        for line in out.splitlines():
            if line.startswith('STATS '): st = json.loads(line[6:])
            elif line.startswith('MISMATCH'): cur = []; behs.append(cur)
            elif cur is not None and line.strip(): cur.append(tuple(line.split()))
        if st is None:
            self.violation('random behaviours (%s %s) end the process on lane %s (exit %s)' % (prof, types, lane, rc), {'kind': 'oracle', 'lane': lane, 'profile': prof, 'types': types, 'seed': SEED})
        self.count('native_oracle_behaviours', st['behaviours']); self.count('native_oracle_comparisons', st['compared'])
        log('oracle search %s %s on %s: %s' % (prof, types, lane, st))
        for ops in behs:
            self.bytewise([('m', ops)], [(lane, {})], {lane: exe}, what='reported')
        if behs:
            raise ToolError('the native oracle reports a mismatch that TLC accepts: %r' % (behs[0],))

    # ---- what the compiled operations reach
    def reach(self, fs, what):
        """fs: facts of facts.py; TLC explores the graph and shows the path to whatever is forbidden."""
        f = hw.fresh('.json')
        json.dump(fs, open(f, 'w'))
        r = hw.tlc('Reach', hw.cfg(invs=['Clean', 'Rooted'], extra='VIEW View\n'), env={'FACTS': f}, workers=4, heap='4g', timeout=400)
        self.states += r.distinct; self.transitions += r.generated
        self.count('graph_nodes_reached', r.distinct)
        log('%s: %d configurations, %d nodes reached' % (what, len(fs), r.distinct))
        if r.ok:
            return None
        if 'Invariant Clean is violated' not in r.out:
            raise ToolError('Reach: ' + r.out[-2500:])
        path = re.findall(r'/\\ at = "([^"]*)"', r.out)
        return fs[int(re.findall(r'/\\ c = (\d+)', r.out)[-1]) - 1]['name'], path

    # ---- byte-accurate validation
    def bytewise(self, behs, instances, exes, what='', guard=False, timeout=500):
        """behs: [(id, ops)]. Results and checkpoints of the real code against the HighwayHash of the specification, by TLC."""
        traces, index, who = [], {}, []
        def go(lane):
            out = {}
            for l, tm in instances:
                if l == lane:
                    res = hw.run_lane(lane, exes[lane], [(i, [retype(o, tm) for o in ops]) for i, ops in behs], guard=guard)
                    out.update({(i, lane, json.dumps(tm)): t for i, t in res.items()})
            return out
        toks = {}
        for r in self.pool.map(go, sorted({l for l, _ in instances})): toks.update(r)
        for i, ops in behs:
            for lane, tm in instances:
                t = toks[(i, lane, json.dumps(tm))]
                k = (i, tuple(t))
                if k in index: continue
                index[k] = 1
                traces.append({'id': i, 'ev': hash_events(ops, t)})
                who.append((ops, lane, tm))
        r, reason, idx = hw.validate_bytes(traces, timeout=timeout)
        self.states += r.distinct; self.transitions += r.generated; self.traces += len(behs) * len(instances)
        self.count('bytewise_traces', len(traces)); self.count('bytewise_values', sum(1 for t in traces for e in t['ev'] if e['op'] in ('fin', 'ckpt')))
        log('%s bytewise: %d distinct traces of %d behaviours x %d' % (what, len(traces), len(behs), len(instances)))
        if reason:
            ops, lane, tm = who[idx]
            self.violation('%s is not what the specification computes [%s %s]' % (reason, lane, tm), {'kind': 'bytewise', 'ops': [retype(o, tm) for o in ops], 'lane': lane, 'trace': traces[idx]})
        self.sample({'trace': traces[0]['id'], 'events': [compact(e) for e in traces[0]['ev'][:6]]})

    # ---- hops between lanes: the checkpoint of one is restored by the other
    def chains(self, chains, exes, what='', **opts):
        """chains: [(id, [(lane, type, [ops of slot 0]) ...], [reference ops])]; between segments a checkpoint is carried over.
        The first segment creates its object itself; the reference runs on the last lane."""
        ev = {cid: [] for cid, _, _ in chains}
        hexes = {}
        nseg = max(len(segs) for _, segs, _ in chains)
        for i in range(nseg):
            batch = {}
            for cid, segs, ref in chains:
                if i < len(segs):
                    lane, ty, ops = segs[i]
                    if i:
                        if not re.fullmatch(r'[0-9a-f]{328}', hexes.get(cid, '')): continue
                        ops = [('Y', 0, ty, hexes[cid], 'f', 0)] + ops
                    ops = ops + ([('K', 0, 0)] if i + 1 < len(segs) else ref)
                    batch.setdefault(lane, []).append((cid, ops))
            for lane, res in zip(batch, self.pool.map(lambda l: hw.run_lane(l, exes[l], batch[l]), list(batch))):
                for cid, ops in batch[lane]:
                    ev[cid] += self._events(ops, [res[cid]], [8])
                    if ops[-1][0] == 'K': hexes[cid] = hw.token(res[cid], len(ops) - 1)[0]
        traces = [{'id': cid, 'ev': ev[cid]} for cid, _, _ in chains]
        self.count('events', sum(len(t['ev']) for t in traces))
        self.count('cross_lane_chains', len(chains))
        r, reason, idx = hw.validate(traces, **opts)
        if reason:
            self.violation('%s [%s]' % (reason, ' > '.join('%s:%s' % (l, t) for l, t, _ in chains[idx][1])),
                           {'kind': 'chain', 'chain': chains[idx], 'trace': traces[idx]})
        self.states += r.distinct; self.transitions += r.generated; self.traces += len(traces)
        log('%s: %d chains' % (what, len(chains)))
        self.sample({'trace': traces[0]['id'], 'events': [compact(e) for e in traces[0]['ev'][:8]]})

    # ---- native search, judged by TLC
    def search(self, lane, exe, prof, types, ms, seed=None, threads=6, n=0, pre=(), **opts):
        seed = SEED if seed is None else seed
        if hw.LANES[lane].wasm:
            rc, out, err = hw.sh(['node', os.path.join(hw.VERIF, 'tools', 'wasmrun.js'), exe, 'explore', '%s %s %d %d' % (prof, types, seed, n)], timeout=600, ok=None)
            st, behs, cur = None, [], None
            for line in out.splitlines():
                if line.startswith('STATS '): st = json.loads(line[6:])
                elif line.startswith('MISMATCH'): cur = []; behs.append(('m%d' % len(behs), cur, []))
                elif line.startswith('='): behs[-1][2].extend(line.split()[1:])
                elif cur is not None and line.strip() and not line.startswith('B '): cur.append(tuple(line.split()))
        else:
            st, behs, rc = hw.explore(lane, exe, prof, types, seed, ms, n, threads, pre=pre)
        if st is None:
            # the search itself died: small samples of the same search, one behaviour at a time, are replayed by the traces
            self.violation('random behaviours (%s %s) end the process on lane %s (exit %s)' % (prof, types, lane, rc),
                           {'kind': 'explore', 'lane': lane, 'profile': prof, 'types': types, 'seed': seed, 'ms': ms, 'n': n})
        for k in ('behaviours', 'ops', 'compared', 'distinct'):
            self.count('native_' + k, st[k])
        log('search %s %s on %s: %s' % (prof, types, lane, st))
        for bid, ops, toks in behs:
            # what was recorded, then what the same operations give by themselves
            self.judge(lane, exe, ops, toks=toks, **opts)
            self.judge(lane, exe, ops, **opts)
        if behs:
            raise ToolError('the native search reports a mismatch that TLC accepts: %r' % (behs[0],))
        return st

    def judge(self, lane, exe, ops, toks=None, **opts):
        """One concrete behaviour, as recorded or else replayed, judged by TLC."""
        if toks is None: toks = hw.run_lane(lane, exe, [('m', ops)])['m']
        ev = self._events(ops, [toks], [hw.LANES[lane].word])
        r, reason, _ = hw.validate([{'id': 'm', 'ev': ev}], **opts)
        if reason:
            self.violation('%s [lane %s]' % (reason, lane), {'kind': 'relational', 'ops': ops, 'instances': [[lane, {}]], 'opts': opts,
                                                            'merge': False, 'guard': False, 'trace': {'id': 'm', 'ev': ev}})

    def finish(self):
        self.join_models()
        d = os.path.join(hw.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ['(none)'])
        self.write(cov, 0)

    def write(self, cov, violations):
        ev = {'property': self.pid, 'tier': hw.TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        d = os.path.join(hw.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + '.json'), 'w'), indent=1)

def hash_events(ops, toks):
    """Driver operations and what they returned, as events of TraceHash."""
    import data
    ev = []
    live = set()
    cks = {}
    for i, o in enumerate(ops):
        v = hw.token(toks, i)[0]
        c = o[0]
        if v in ('!', 'X', 'H') or (v == '-' and i >= len(toks)):
            ev.append({'op': 'panic', 's': 1}); break
        if v in ('-', 'none'): continue
        s = int(o[1]) + 1 if c not in 'bJ' else 0
        words = lambda v: [list(int(v[j:j+16], 16).to_bytes(8, 'little')) for j in range(0, len(v), 16)]
        if c == 'N': ev.append({'op': 'new', 's': s, 'key': data.lanes(data.key(0 if o[4] in 'dDo' else int(o[3])))})
        elif c == 'A': ev.append({'op': 'append', 's': s, 'data': list(data.pool(int(o[2]), int(o[3]), int(o[4])))})
        elif c in 'Ff': ev.append({'op': 'fin', 's': s, 'w': 64, 'val': words(v)})
        elif c == 'Z': ev.append({'op': 'fin', 's': s, 'w': int(o[2]), 'val': words(v)})
        elif c == 'O':
            ev.append({'op': 'append', 's': s, 'data': list(data.pool(int(o[3]), int(o[4]), int(o[5])))})
            ev.append({'op': 'fin', 's': s, 'w': int(o[2]), 'val': words(v)})
        elif c in 'Cc': ev.append({'op': 'clone', 's': int(o[2]) + 1, 'from': s})
        elif c == 'K':
            cks[int(o[2])] = list(bytes.fromhex(v))
            ev.append({'op': 'ckpt', 's': s, 'val': cks[int(o[2])]})
        elif c == 'R': ev.append({'op': 'restore', 's': s, 'data': cks[int(o[3])]})
        elif c == 'X': ev.append({'op': 'restore', 's': s, 'data': list(data.raw(int(o[3])))})
        elif c in 'DG': pass
        else: raise ToolError('bytewise: %r' % (o,))
    return ev

def retype(op, tm):
    # the reference for a default hasher: the zero key, spelled out
    if tm.get('zero') and op[0] == 'N' and op[2] in tm and op[4] != 'f':
        return ('N', op[1], tm[op[2]], 0 if op[4] in 'dDo' else op[3], 'f')
    if op[0] in 'NRXY' and op[2] in tm:
        return (op[0], op[1], tm[op[2]]) + tuple(op[3:])
    return op

def inst_name(inst):
    return '%s:%s' % (inst[0], ''.join('%s' % v for v in dict(inst[1]).values()))

def compact(e):
    return ' '.join('%s=%s' % (k, str(v)[:60]) for k, v in e.items() if k not in ('al', 'full', 'keyed'))

# ---------------------------------------------------------------- generation from the specification
BASE = dict(PACKET='32', Slots='{1}', CkSlots='{1}', Keys='{1}', Lens='{0,1,31,32,33}', MaxLen='200', RawCounts='{0}', Widths='{64}',
            StaleCheckpoint='FALSE', FullRestore='FALSE', UnkeyedDefault='FALSE', FillOffByOne='FALSE', ObserverMutates='FALSE', SharedScratch='FALSE',
            Ops='{"N", "d", "F", "D", "V", "A", "Z", "C", "K", "R", "X"}')

def S(xs):
    return '{%s}' % ', '.join(map(str, xs))

def packet_cfg(invs, props=(), ops=None, **over):
    if ops: over['Ops'] = '{%s}' % ', '.join('"%s"' % o for o in ops)
    c = dict(BASE, PACKET='4', Slots='{1,2}', Keys='{0,1}', Lens='{0,1,2,3,4,5,9}', MaxLen='6', RawCounts='{0,2,4,7}')
    c.update(over)
    return hw.cfg(c, spec='Spec', invs=invs, props=props)

ALLINV = ['TypeOK', 'PendingShort', 'Represents', 'ResultIsHash', 'RootsKeyed', 'CkptCanonical', 'CkptNoStale', 'CkptIdempotent', 'NoPanic']

def parse_beh(out):
    res = []
    for line in out.splitlines():
        if line.startswith('"BEH '):
            s = line[5:-1].replace('\\"', '"').replace('<<', '[').replace('>>', ']')
            res.append(json.loads(s))
    return res

def gen_cover(chk, ops, depth=6, **over):
    """One behaviour per transition of Gen's quotient."""
    c = dict(BASE, **over)
    c.update(DEPTH=depth, Walk='FALSE', OneObject='TRUE', Ops='{%s}' % ', '.join('"%s"' % o for o in ops))
    text = 'INIT GInit\nNEXT GNext\nVIEW GView\nCONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in c.items()) + 'CHECK_DEADLOCK FALSE\n'
    r = hw.tlc('Gen', text, workers=1, timeout=300)
    if not r.ok:
        raise ToolError('generation: ' + r.out[-2000:])
    b = parse_beh(r.out)
    chk.states += r.distinct
    chk.transitions += r.generated
    chk.count('generated_behaviours', len(b))
    return b

def gen_walk(chk, ops, num, depth, **over):
    """Random behaviours of the specification."""
    c = dict(BASE, **over)
    c.update(DEPTH=depth, Walk='TRUE', OneObject='FALSE', Ops='{%s}' % ', '.join('"%s"' % o for o in ops))
    text = 'INIT GInit\nNEXT GNext\nCONSTANTS\n  Chunk <- NoBytes\n' + ''.join('  %s = %s\n' % kv for kv in c.items()) + 'CHECK_DEADLOCK FALSE\n'
    def part(i):
        return hw.tlc('Gen', text, workers=1, timeout=300, heap='1g', args=['-simulate', 'num=%d' % ((num + 5) // 6), '-depth', str(depth + 2), '-seed', str(SEED * 100 + i)])
    b = []
    for r in chk.pool.map(part, range(6)):
        b += parse_beh(r.out)
    if not b:
        raise ToolError('generation: ' + r.out[-2000:])
    chk.count('generated_behaviours', len(b))
    return b

class Conv:
    """A generated behaviour as driver operations; keeps track of every object's stream.
    exact: references repeat the very calls, without what came in between (otherwise one append a pool)."""
    def __init__(self, types=('T',), hows='a', pool=0, key=16, raw=0, rng=None, reftypes=None, newhow='f', exact=False, keys=None):
        self.types, self.hows, self.pool, self.key, self.raw, self.rng = list(types), hows, pool, key, raw, rng or random.Random(0)
        self.reftypes = reftypes or self.types
        self.newhow, self.exact, self.keys = newhow, exact, keys
    def ty(self):
        return self.types[self.rng.randrange(len(self.types))]
    def how(self):
        return self.hows[self.rng.randrange(len(self.hows))]
    def keynum(self, k):
        if self.keys: return self.keys[k % len(self.keys)]
        return self.key if k == 1 else (0 if k == 0 else self.key + k)
    def run(self, hist, widths=(64, 128, 256), close=True, ref=True, ckpt=False):
        ops, st, ck = [], {}, {}
        refs = []
        def end(s, w):
            if ckpt: ops.append(('K', s, 8))
            ops.append(('Z', s, w))
            if ref: refs.append((st[s], w))
            st.pop(s)
        for h in hist:
            c = h[0]
            if c == 'end': break
            s = h[1] - 1
            if c in 'NdX':
                if c == 'N': o = ('N', s, self.ty(), self.keynum(h[2]), self.newhow)
                elif c == 'd': o = ('N', s, self.ty(), 0, self.rng.choice('dD'))
                else: o = ('X', s, self.ty(), hw_raw(h[2], self.raw), 'f')
                ops.append(o)
                st[s] = [o, [], self.pool]
            elif c == 'A':
                o = st[s]
                # an object goes on in its pool where it left off
                at = max([q[3] for q in o[1] if q[1] == o[2]] + [0])
                q = (self.how(), o[2], at, at + h[2])
                ops.append(('A', s, q[1], q[2], q[3], q[0]))
                o[1] = o[1] + [q]
            elif c == 'V':
                st[s] = [st[s][0], st[s][1], st[s][2] + 1]
            elif c in 'FG': ops.append((c, s))
            elif c == 'Z': end(s, h[2])
            elif c == 'C':
                t = h[2] - 1
                ops.append(('C', s, t) if t not in st or s == t or len(self.types) > 1 or self.rng.random() < .7 else ('c', s, t)); st[t] = list(st[s])
            elif c == 'K':
                ops.append(('K', s, h[2] - 1)); ck[h[2] - 1] = list(st[s])
            elif c == 'R':
                ops.append(('R', s, self.ty(), h[2] - 1, 'f')); st[s] = list(ck[h[2] - 1])
            elif c == 'H':
                ops.append(('K', s, h[2] - 1)); ops.append(('R', s, self.ty(), h[2] - 1, 'f')); ck[h[2] - 1] = list(st[s])
            elif c == 'D':
                ops.append(('D', s)); st.pop(s)
        if close:
            for s in sorted(st):
                end(s, widths[self.rng.randrange(len(widths))])
        for o, w in refs:
            ops += self.reference(o, w, ckpt)
        return ops
    def reference(self, o, w, ckpt=False):
        mk, items, _ = o
        ty = self.reftypes[self.rng.randrange(len(self.reftypes))]
        if self.exact:
            return [(mk[0], 9) + mk[2:]] + [('A', 9, p, a, e, how) for how, p, a, e in items] + [('Z', 9, w)]
        ops = [('N', 9, ty, mk[3], 'f') if mk[0] == 'N' else ('X', 9, ty, mk[3], 'f')]
        norm = []
        for _, p, a, e in items:
            if norm and norm[-1][0] == p and norm[-1][2] == a: norm[-1] = (p, norm[-1][1], e)
            elif a != e: norm.append((p, a, e))
        ops += [('A', 9, p, a, e, 'a') for p, a, e in norm]
        if ckpt: ops.append(('K', 9, 9))
        return ops + [('Z', 9, w)]

def random_chunks(rng, n):
    """A cut of n bytes into chunks."""
    out = []
    while n:
        k = min(n, rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 28, 31, 32, 33, 48, 63, 64, 65, 96, 100, 128]))
        out.append(k); n -= k
    return out

def hw_raw(count, variant):
    import data
    return data.RAW_COUNTS.index(count) + 64 * variant

def grouped(behs, n, name='g'):
    """Puts behaviours together, n a trace: they share a memo."""
    out = []
    for i in range(0, len(behs), n):
        out.append(('%s%d' % (name, i // n), [o for b in behs[i:i + n] for o in b]))
    return out

def instances(lanes, types=None):
    return [(l, {'T': t}) for l in lanes for t in (types or hw.LANES[l].types) if t in hw.LANES[l].types]

def main():
    if sys.argv[1:2] == ['replay']:
        return replay(sys.argv[2])
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        hw.TIER = sys.argv[2]
    chk = Check(pid)
    mod = importlib.import_module('props')
    rc = 2
    try:
        getattr(mod, pid)(chk)
        chk.finish()
        print('OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs' % (pid, hw.TIER, chk.states, chk.transitions, chk.traces, time.time() - chk.t0))
        rc = 0
    except Violation as e:
        path, reason = str(e).split('\t', 1)
        chk.write(dict(chk.cov, states=chk.states, transitions=chk.transitions, traces_validated_against_impl=chk.traces,
                       samples=chk.samples or [reason]), 1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  ' + reason)
        rc = 1
    except BuildFailed as e:
        print('ERROR: %s' % e, file=sys.stderr)
    except ToolError as e:
        print('ERROR: %s' % e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    sys.stdout.flush()
    hw.cleanup()
    os._exit(rc)

def replay(path):
    """Runs a reported violation again, on the current tree."""
    j = json.load(open(path))
    r = j['replay']
    print('reported:', j['reason'])
    if r['kind'] != 'relational':
        print(json.dumps(r, indent=1))
        return
    chk = Check(j['property'])
    insts = [(l, dict(tm)) for l, tm in r['instances']]
    exes = hw.build_all(sorted({l for l, _ in insts}))
    try:
        chk.relational([('replay', [tuple(o) for o in r['ops']])], insts, exes, merge=r['merge'], guard=r['guard'], **r['opts'])
        print('accepted now')
    except Violation as e:
        print('rejected:', str(e).split('\t', 1)[1])

if __name__ == '__main__':
    main()
