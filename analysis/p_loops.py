"""P19: every way around a loop makes progress towards leaving it."""
import cfg
from passes import ASSUME, infn, site
from report import Finding

# calls that change nothing a loop's end can depend on
QUIET = frozenset("""strcmp strncmp strcasecmp strncasecmp strlen strnlen strchr strrchr strstr memcmp strtol strtod atoi tolower toupper isdigit isalpha
isspace isalnum dx_log_disir dx_log_disir_va disir_log_user dx_context_error_set disir_error_set disir_status_string
dc_context_type dc_context_type_string dc_context_valid dx_value_type_string dc_value_type dc_value_type_string dc_version_compare dx_log_context
__errno_location strerror _ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv""".split())
LIMIT = 20000


def stays(f, op, h, body, env, phis):
    """what an operand denotes in the running iteration: ('p', header phi), ('c', n) or None"""
    if op[0] == 'i':
        return ('c', op[1])
    if op[0] == 'n':
        return ('c', 0)
    if op[0] == 'v':
        if op[1] in phis:
            return ('p', op[1])
        return env.get(op[1])
    return None


def test(f, op, env, phis):
    """truth of a branch condition under the constants known on this path"""
    if op[0] == 'i':
        return bool(op[1])
    if op[0] != 'v':
        return None
    e = env.get(op[1])
    if e and e[0] == 'c':
        return bool(e[1])
    d = f.defs.get(op[1])
    if not d:
        return None
    if d[0] == 'icmp' and d[3] in ('eq', 'ne'):
        a = stays(f, d[4], None, None, env, phis)
        b = stays(f, d[5], None, None, env, phis)
        if a and b and a[0] == 'c' == b[0]:
            return (a[1] == b[1]) == (d[3] == 'eq')
        k = fact(f, d, env, phis)
        if k in env:
            return env[k] == (d[3] == 'eq')
    if d[0] == 'cast' and d[3] in ('zext', 'trunc'):
        return test(f, d[4], env, phis)
    return None


def fact(f, d, env, phis):
    """the name under which the outcome of an equality test is remembered"""
    r = []
    for o in (d[4], d[5]):
        r.append(stays(f, o, None, None, env, phis) or tuple(o))
    return ('t',) + tuple(sorted(r, key=str))


def learn(f, op, truth, env, phis):
    while op[0] == 'v':
        d = f.defs.get(op[1])
        if d and d[0] == 'cast' and d[3] in ('zext', 'trunc'):
            op = d[4]
            continue
        if d and d[0] == 'icmp' and d[3] in ('eq', 'ne'):
            env[fact(f, d, env, phis)] = truth == (d[3] == 'eq')
        return


class Loop(object):
    def __init__(self, f, h, body, lat, idom):
        self.f, self.h, self.body, self.lat, self.idom = f, h, body, lat, idom
        self.phis = [i for i in f.blocks[h] if i[0] == 'phi']
        self.pids = set(i[1] for i in self.phis)
        self.where = {}
        for b in body:
            for i in f.blocks[b]:
                self.where[i[1]] = b
        self.exits = []
        for b in body:
            if any(s not in body for s in f.succ[b]):
                self.exits.append(b)

    def slice(self, op, seen):
        """(header phis, memory bases read, calls) a value inside the loop depends on"""
        f = self.f
        if op[0] != 'v' or op[1] in seen:
            return
        seen.add(op[1])
        d = f.defs.get(op[1])
        if not d or self.where.get(op[1]) is None or d[0] == 'alloca':
            return
        if d[0] == 'phi' and d[1] in self.pids:
            self.sp.add(d[1])
            return
        if d[0] == 'phi':
            # also what decides which way the value came
            for v, p in d[3]:
                self.slice(v, seen)
            for b in self.between(self.where[op[1]]):
                for o in cfg.operands(f.blocks[b][-1]):
                    self.slice(o, seen)
            return
        if d[0] == 'load':
            self.sm.add(cfg.baseof(f, d[3]))
            self.slice(d[3], seen)
            return
        if d[0] == 'call':
            self.sc.add(d[1])
            for o in d[4]:
                b = cfg.baseof(f, o)
                if b[0] in ('alloca', 'global'):
                    self.sm.add(b)
                self.slice(o, seen)
            return
        for o in cfg.operands(d):
            self.slice(o, seen)

    def between(self, b):
        """blocks of the loop from the immediate dominator of b to b"""
        d = self.idom[b]
        out, st = set(), [p for p in self.f.pred[b]]
        while st:
            x = st.pop()
            if x in out or x not in self.body:
                continue
            out.add(x)
            if x != d:
                st += self.f.pred[x]
        return out

    def effects(self, b, env):
        """what the path knows after block b: constants put in local variables are followed too"""
        f = self.f
        for i in f.blocks[b]:
            if i[1] >= 0:
                for k in [k for k in env if type(k) is tuple and k[0] == 't' and ('v', i[1]) in k]:
                    del env[k]
            if i[0] == 'store':
                if i[4][0] == 'v' and i[4][1] in f.allocas:
                    v = stays(f, i[3], None, None, env, self.pids)
                    if v and v[0] == 'c':
                        env[('m', i[4][1])] = v
                    else:
                        env.pop(('m', i[4][1]), None)
                elif cfg.baseof(f, i[4])[0] == 'alloca':
                    env.pop(('m', cfg.baseof(f, i[4])[1]), None)
            elif i[0] == 'load':
                if i[3][0] == 'v' and ('m', i[3][1]) in env:
                    env[i[1]] = env[('m', i[3][1])]
                else:
                    env.pop(i[1], None)
            elif i[0] == 'call' and not (isinstance(i[3], str) and i[3].startswith('llvm.')):
                for o in i[4]:
                    x = cfg.baseof(f, o)
                    if x[0] == 'alloca':
                        env.pop(('m', x[1]), None)

    def exitslice(self, blocks):
        self.sp, self.sm, self.sc = set(), set(), set()
        seen = set()
        for b in blocks:
            t = self.f.blocks[b][-1]
            for o in cfg.operands(t):
                self.slice(o, seen)
            if t[0] == 'call':
                self.sc.add(t[1])
        return self.sp, self.sm, self.sc

    def touches(self, ins, mems, calls, dominating):
        """may this instruction change memory the exit tests read, or is it a call they turn on"""
        f = self.f
        if ins[0] == 'store':
            b = cfg.baseof(f, ins[4])
            return b in mems or b[0] not in ('alloca', 'global') and any(m[0] not in ('alloca',) for m in mems)
        if ins[0] == 'call':
            if ins[1] in dominating and ins[1] >= 0 and not (isinstance(ins[3], str) and ins[3] in QUIET):
                return True
            if isinstance(ins[3], str) and (ins[3] in QUIET or ins[3].startswith('llvm.')):
                return ins[3].startswith('llvm.mem') and cfg.baseof(f, ins[4][0]) in mems
            for o in ins[4]:
                b = cfg.baseof(f, o)
                if b in mems:
                    return True
            if any(m[0] in ('load', 'phi', 'arg', 'call', '?') for m in mems) and not dominating:
                # memory reached through pointers, which any call may change
                return True
        return False

    def stuck(self):
        """a way around that changes nothing the loop's end depends on"""
        f = self.f
        domx = [b for b in self.exits if all(cfg.dom(self.idom, b, l) for l in self.lat)]
        ps, ms, cs = map(set, self.exitslice(domx))
        aps, ams, acs = map(set, self.exitslice(self.exits))
        if not self.exits:
            return None, 'none'
        # something must move at all for the question to arise
        moved = set()
        for i in self.phis:
            for v, p in i[3]:
                if p in self.body and v != ['v', i[1]]:
                    moved.add(i[1])
        written = False
        for b in self.body:
            for i in f.blocks[b]:
                if self.touches(i, ams, acs, acs):
                    written = True
        if not moved & aps and not written and not (acs and any(self.impure(c) for c in acs)):
            return [self.h], 'invariant'
        use_phi = bool(ps & moved)
        memvars = {m for m in ms if m[0] == 'alloca'}
        if not use_phi and not memvars:
            return None, 'ok'
        if not use_phi:
            # progress through memory only: some instruction of the loop must write it
            w = any(self.touches(i, memvars, set(), set()) for b in self.body for i in f.blocks[b])
            if not w:
                return None, 'ok'
        # search for a way around without progress
        start = (self.h, ())
        seen = {start: None}
        todo = [start]
        while todo:
            cur = todo.pop()
            b, e = cur
            env = dict(e)
            blk = f.blocks[b]
            if any(self.touches(i, ms | (ams if not use_phi else set()), cs, cs) for i in blk):
                continue
            t = blk[-1]
            self.effects(b, env)
            succ = list(f.succ[b])
            if t[0] == 'br':
                r = test(f, t[3], env, self.pids)
                if r is not None:
                    succ = [t[4] if r else t[5]]
            elif t[0] == 'switch':
                r = stays(f, t[3], None, None, env, self.pids)
                if r and r[0] == 'c':
                    succ = [dict(t[5]).get(r[1], t[4])]
            for s in succ:
                if s not in self.body:
                    continue
                if s == self.h:
                    ok = all(any(p == b and stays(f, v, None, None, env, self.pids) == ('p', i[1]) for v, p in i[3]) for i in self.phis)
                    if ok:
                        path = [b]
                        c = cur
                        while seen[c] is not None:
                            c = seen[c]
                            path.append(c[0])
                        return path[::-1], 'stuck'
                    continue
                ne = dict(env)
                if t[0] == 'br' and t[4] != t[5]:
                    learn(f, t[3], s == t[4], ne, self.pids)
                upd = {}
                for i in f.blocks[s]:
                    if i[0] != 'phi':
                        break
                    for v, p in i[3]:
                        if p == b:
                            upd[i[1]] = stays(f, v, None, None, env, self.pids)
                for k, v in upd.items():
                    if v is None:
                        ne.pop(k, None)
                    else:
                        ne[k] = v
                n = (s, tuple(sorted(ne.items(), key=str)))
                if n not in seen:
                    if len(seen) > LIMIT:
                        return None, 'limit'
                    seen[n] = cur
                    todo.append(n)
        return None, 'ok'

    def impure(self, c):
        d = self.f.defs.get(c)
        return not (d and isinstance(d[3], str) and d[3] in QUIET)


def run(ctx):
    finds, seen = [], set()
    nl = nf = 0
    limit = []
    for u, f in ctx.functions():
        idom = cfg.dominators(f)
        ls = cfg.loops(f, idom)
        nf += 1
        for h, (body, lat) in sorted(ls.items()):
            nl += 1
            lp = Loop(f, h, body, lat, idom)
            path, why = lp.stuck()
            ins = next((i for i in f.blocks[h] if i[2]), None) or f.blocks[h][-1]
            if why == 'limit':
                limit.append("%s (%s)" % (f.dname, site(f, ins)))
            if why == 'none':
                if any(i[0] in ('ret', 'unreachable') or (i[0] == 'call' and len(i) > 10 and i[10]) for b in body for i in f.blocks[b]):
                    continue
                what = "a loop has no way out"
            elif why == 'invariant':
                what = "nothing in the loop changes what its end depends on"
            elif why == 'stuck':
                what = "a way around the loop changes nothing its end depends on"
            else:
                continue
            tr = []
            if path:
                for b in path:
                    i = next((i for i in f.blocks[b] if i[2]), None)
                    if i:
                        tr.append(site(f, i))
            fn = infn(f, ins)
            k = ("%s|%s" % (fn, what), site(f, ins))
            if k in seen:
                continue
            seen.add(k)
            finds.append(Finding(k[0], "in %s: %s" % (fn, what), k[1], tr))
    cov = {"explanation": "Every natural loop of every function: no path around it may leave unchanged all loop-carried variables while the "
           "test that ends the loop turns on one that other paths change (or on memory or a call the path does not touch), and a loop must have a way out.",
           "functions": nf, "loops": nl, "loops_cut_off": limit}
    broken = "only %d loops found" % nl if nl < 60 else None
    return finds, cov, ASSUME + ["a path is taken to be possible unless a constant assigned on it contradicts one of its branches"], broken
