"""Abstract interpreter: loops.

A loop body is interpreted once per fixpoint round with the variables it
modifies replaced by "carried value" atoms; the update expressions are then put
in closed form (sum / concatenation / map / existence / first match ...).  What
has no closed form becomes a `loopval`/`loopend` term in canonical naming.
"""
import ast
from terms import *
from terms import _has_bound
from program import *
from core import Core, State, Frame, Event, conj, rel, merge_lists
from evalx import unspread, SEGOPS, _as_segs
from builtinx import range_list


BINDERS.update({'loopval', 'loopend', 'loopstop', 'upto'})
FOREVER = mk('forever')


def built_here(it):
    """a sequence with instances created by the analysed function"""
    if it.op in ('list', 'each', 'opt', 'spread', 'tuple', 'upd', 'with', 'ite', 'rev', 'sorted', 'slice', 'zip', 'listof') or it.op in LOOPS:
        stack = [it]
        while stack:
            x = stack.pop()
            if x.op == 'inst':
                return True
            if x.op == 'each':
                stack.extend(x.args[2])
                if x.args[2] == (mk('elem', x.args[0], x.args[1]),):
                    stack.append(x.args[0])
            elif x.op in LOOPS:
                stack.append(x.args[4])
                stack.extend(v.args[1] for v in x.args[2])
            elif x.op in ('list', 'opt', 'spread', 'tuple', 'upd', 'with', 'ite', 'rev', 'sorted', 'slice', 'zip', 'listof'):
                stack.extend(y for y in x.args if isinstance(y, T))
    return False


class LoopMixin:
    # ------------------------------------------------------------ statements -
    def x_For(self, s, st, fr):
        itv = self.eval(s.iter, st, fr)
        if st.dead:
            return
        ix = self.by_index(s, itv, st, fr)
        if ix is not None:
            return self.x_For(ix, st, fr)
        self.iterate(itv, st, fr, lambda v, x: self.assign(s.target, v, x, fr),
                     lambda x: self.exec_block(s.body, x, fr),
                     (lambda x: self.exec_block(s.orelse, x, fr)) if s.orelse else None)

    def by_index(self, s, itv, st, fr):
        """a loop that changes the elements of a list built here, as a loop over its positions"""
        enum = isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and \
            len(s.iter.args) == 1 and not s.iter.keywords
        src = s.iter.args[0] if enum else s.iter
        if enum:
            if not (isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2):
                return None
            pos, tgt = s.target.elts
        else:
            pos, tgt = ast.Name(id='%i' + str(s.lineno), ctx=ast.Store()), s.target
        if not isinstance(src, ast.Name) or not isinstance(tgt, ast.Name) or not isinstance(pos, ast.Name):
            return None
        stored = any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)
                     and n.value.id == tgt.id for b in s.body for n in ast.walk(b))
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if not stored or names & {src.id, tgt.id, pos.id} or any(isinstance(n, ast.Name) and n.id == src.id for b in s.body for n in ast.walk(b)):
            return None
        v = self.lookup(src.id, st, fr) if enum else itv
        if v.op != 'ref':
            return None
        c = self.content(v, st)
        if c is None or c.op != 'list' or not built_here(c):
            return None
        fr.locals.add(pos.id)
        load = ast.Load()
        rng = ast.Call(func=ast.Name(id='range', ctx=load), args=[ast.Call(func=ast.Name(id='len', ctx=load), args=[
            ast.Name(id=src.id, ctx=load)], keywords=[])], keywords=[])
        first_ = ast.Assign(targets=[tgt], value=ast.Subscript(value=ast.Name(id=src.id, ctx=load), slice=ast.Name(
            id=pos.id, ctx=load), ctx=load))
        new = ast.For(target=pos, iter=rng, body=[first_] + s.body, orelse=s.orelse, type_comment=None)
        ast.copy_location(new, s)
        for n in ast.walk(new):
            if 'lineno' not in n.__dict__ and isinstance(n, (ast.expr, ast.stmt)):
                ast.copy_location(n, s)
        return new

    def x_While(self, s, st, fr):
        base_guard = st.guard
        brk = Breaks()
        brk.orelse = bool(s.orelse)

        def body(x):
            c = self.under(self.cond(s.test, x, fr), x.guard)
            if x.dead:
                return
            if c is FALSE:
                fr.exits.append(('wend', None, x.copy(), None))
                x.dead = True
                return
            if c is not TRUE:
                f = x.fork(Not(c))
                if not f.dead:
                    fr.exits.append(('wend', None, f, None))
                x.become(x.fork(c))
            if not x.dead:
                self.exec_block(s.body, x, fr)
        # a test that is false at entry
        probe = st.copy()
        r0, self.recording = self.recording, False
        n0 = len(fr.exits)
        try:
            c0 = self.under(self.cond(s.test, probe, fr), probe.guard)
        finally:
            self.recording = r0
            del fr.exits[n0:]
        if c0 is FALSE:
            if s.orelse:
                self.exec_block(s.orelse, st, fr)
            return
        self.loop_core(FOREVER, (C(0),), st, fr, None, body, brk)
        if s.orelse and not st.dead:
            self.exec_block(s.orelse, st, fr)
        self.join(st, brk, base_guard)

    def join(self, st, brk, base_guard):
        outs = [(None, b) for b in brk] + ([(None, st.copy())] if not st.dead else [])
        if not outs:
            st.dead = True
            return
        if len(outs) == 1:
            st.become(outs[0][1])
            st.dead = False
            return
        _, r = self.merge_exits(outs, base_guard)
        r.dead = False
        st.become(r)

    # ------------------------------------------------------------- iteration -
    def iterate(self, itv, st, fr, bind, body, orelse=None):
        c = self.seq(itv, st)
        if c.op != 'list':
            raise Undecided('iteration over a computed sequence')
        if any(s.op == 'upd' for s in c.args):
            c = mk('list', spread(self.freeze(c, st)))
        base_guard = st.guard
        brk = []
        self.iter_segs(c.args, st, fr, bind, body, brk)
        if orelse is not None and not st.dead:
            orelse(st)
        if brk:
            self.join(st, brk, base_guard)

    def iter_segs(self, segs, st, fr, bind, body, brk):
        for s in segs:
            if st.dead:
                return
            if s.op == 'opt':
                g = s.args[0]
                self.branch(g, st, lambda x: self.iter_segs(s.args[1:], x, fr, bind, body, brk), lambda x: None)
            elif s.op == 'each':
                it, k, inner = s.args
                self.loop_each(it, k, inner, st, fr, bind, body, brk)
            else:
                self.one(s, st, fr, bind, body, brk)

    def one(self, v, st, fr, bind, body, brk):
        n0 = len(fr.exits)
        base_guard = st.guard
        bind(v, st)
        if not st.dead:
            body(st)
        inner = fr.exits[n0:]
        del fr.exits[n0:]
        conts = []
        for ex in inner:
            if ex[0] == 'continue':
                conts.append((None, ex[2]))
            elif ex[0] == 'break':
                brk.append(ex[2])
            else:
                fr.exits.append(ex)
        if conts:
            outs = conts + ([(None, st.copy())] if not st.dead else [])
            if len(outs) == 1:
                r = outs[0][1]
            else:
                _, r = self.merge_exits(outs, base_guard)
                if not any(e[0] not in ('continue',) for e in inner):
                    r.guard = base_guard
            r.dead = False
            st.become(r)

    def loop_each(self, it, k, inner, st, fr, bind, body, brk):
        # iterating a concrete structure
        if it.op == 'tuple' or it.op == 'list' and all(x.op not in SEGOPS and x.op != 'upd' for x in it.args):
            for n, x in enumerate(it.args):
                if st.dead:
                    return
                m = {mk('elem', it, k): x, mk('idx', it, k): C(n)}
                self.iter_segs([subst(y, m) for y in inner], st, fr, bind, body, brk)
            return
        lvl = sum(1 for e in self.loopstack if e[0] is it)
        if lvl != k:
            m = {mk('elem', it, k): mk('elem', it, lvl), mk('idx', it, k): mk('idx', it, lvl)}
            inner = tuple(subst(y, m) for y in inner)
        self.loop_core(it, inner, st, fr, bind, body, brk, lvl)

    # ------------------------------------------------------------------ core -
    def entry(self, key, init, lid, mode):
        nm = repr(key)
        if mode == 'list':
            return mk('list', spread(mk('cv', lid, nm, 'list')))
        if mode == 'dict':
            return mk('dict', mk('kvspread', mk('cv', lid, nm, 'dict')))
        if mode == 'bytes':
            return mk('cv', lid, nm, 'bytes')
        if mode == 'hash':
            return mk('hashobj', init.args[0], mk('cv', lid, nm, 'bytes'))
        k = kind(init) if init is not None else None
        if k == 'none':
            k = None
        c = mk('cv', lid, nm, k)
        if init is not None and init.op == 'const':
            LABELS[c] = repr(init.args)
        else:
            LABELS.pop(c, None)
        return c

    def mode_of(self, key, init):
        if key[0] in ('h', 'c'):
            if init is None:
                return None
            if init.op == 'list':
                return 'list'
            if init.op == 'dict':
                return 'dict'
            if init.op == 'inst':
                return 'inst'
            if init.op == 'hashobj':
                return 'hash'
            if kind(init) == 'bytes':
                return 'bytes'
            return None
        if key[0] == 'd':
            return 'dict'
        return 'val'

    def run_body(self, base, over, it, inner, lvl, lid, fr, bind, body):
        s = base.copy()
        for k, v in over.items():
            s.store[k] = v
        n0 = len(fr.exits)
        self.loopstack.append((it, lvl, lid))
        brk2 = []
        try:
            if bind is None:
                body(s)
            else:
                self.iter_segs(inner, s, fr, bind, body, brk2)
        finally:
            self.loopstack.pop()
        ex = fr.exits[n0:]
        del fr.exits[n0:]
        conts = [(None, e[2]) for e in ex if e[0] == 'continue']
        stops = [(e[0], e[1], e[2], e[3]) for e in ex if e[0] != 'continue']
        stops += [('break', None, b, None) for b in brk2]
        if conts:
            outs = conts + ([(None, s)] if not s.dead else [])
            if len(outs) == 1:
                s = outs[0][1]
            else:
                _, s = self.merge_exits(outs, base.guard)
            s.dead = False
        return s, stops

    def loop_core(self, it, inner, st, fr, bind, body, brk, lvl=0):
        base = st.copy()
        lid = self.uid()
        frames = {k[1] for k in base.store if k[0] == 'v'} | {fr.id} | {k[1] for k in self.base if k[0] == 'v'}
        carried = {}        # key -> entry value
        fields = {}         # inst heap key -> set of carried fields
        rec0 = self.recording
        self.recording = False
        ek = {mk('elem', it, lvl), mk('idx', it, lvl)}
        uid_stable = None
        final = None
        try:
            for rnd in range(10):
                last = rnd >= 1 and stable
                if last:
                    self.recording = rec0
                lid_uid = self._uid
                nown = self._uid
                s, stops = self.run_body(base, carried, it, inner, lvl, lid, fr, bind, body)
                if last:
                    final = (s, stops, nown)
                    break
                stable = True
                for x in [s] + [t[2] for t in stops if True]:
                    if x is s and s.dead:
                        continue
                    for key, v in x.store.items():
                        if key[0] == 'n' or key[0] == 'q':
                            continue
                        b0 = carried.get(key, base.store.get(key))
                        if b0 is None:
                            b0 = self.base.get(key)
                        if b0 is v:
                            continue
                        if key[0] == 'v' and key[1] not in frames:
                            continue
                        if key[0] == 'h':
                            if key not in base.store and key not in self.base:
                                continue
                        if key[0] in ('a', 'c', 'd') and (frees(key[1]) & ek):
                            continue
                        if key in carried and key not in fields:
                            c = carried[key]
                            if x is s and key[0] == 'v' and c.op == 'cv':
                                k = join_kind(kind(c), kind(v))
                                if k != kind(c):
                                    carried[key] = mk('cv', *c.args[:2], k)
                                    stable = False
                            continue
                        init = base.store.get(key)
                        if init is None:
                            init = self.base.get(key)
                        if init is None:
                            init = self.default(key)
                        mode = self.mode_of(key, init)
                        if mode is None:
                            raise Undecided('loop-carried structure')
                        if mode == 'inst':
                            have = fields.setdefault(key, set())
                            f0, f1 = dict(init.args[1]), dict(v.args[1])
                            e0 = dict(b0.args[1])
                            new = {n for n in set(f1) | set(f0) if f1.get(n) is not e0.get(n)} - have
                            if new:
                                have |= new
                                f = dict(init.args[1])
                                for n in have:
                                    f[n] = mk('cv', lid, repr((key, n)), kind(f0[n]) if n in f0 else None)
                                carried[key] = mk('inst', init.args[0], tuple(sorted(f.items())))
                                stable = False
                            continue
                        if key[0] == 'v' and init.op == 'ref' and init.args[1] == 'list' and v.op == 'ref' and \
                                v is not init and v.args[1] == 'list':
                            # list-valued variable rebound to a new list: carried by value
                            r = mk('ref', self.uid(), 'list')
                            base.store[('h', r.args[0])] = mk('list', spread(mk('cv', lid, repr(key), 'list')))
                            carried[key] = r
                            stable = False
                            continue
                        carried[key] = self.entry(key, init, lid, mode)
                        stable = False
                if rnd == 0:
                    stable = not carried
        finally:
            self.recording = rec0
        if final is None:
            raise Undecided('loop does not stabilise')
        self.close_loop(it, lvl, lid, base, carried, fields, final, st, fr, brk, inner)

    # --------------------------------------------------------------- closing -
    def freeze_owned(self, v, st, nown):
        old = self._fz_min
        self._fz_min = nown
        try:
            return self.freeze(v, st)
        finally:
            self._fz_min = old

    def close_loop(self, it, lvl, lid, base, carried, fields, final, st, fr, brk, inner):
        s, stops, nown = final
        vs = []
        for key, ent in carried.items():
            init = base.store.get(key)
            if init is None:
                init = self.base.get(key)
            if init is None:
                init = self.default(key)
            if key in fields:
                f0 = dict(init.args[1])
                for n in sorted(fields[key]):
                    cvt = dict(ent.args[1])[n]
                    vs.append(Var(key, n, cvt, f0.get(n, mk('unbound', n)), 'val'))
                continue
            if key[0] == 'v' and ent.op == 'ref':
                c = base.store[('h', ent.args[0])].args[0].args[0]
                vs.append(Var(key, None, c, self.hget(init, base), 'vlist'))
                continue
            mode = self.mode_of(key, init)
            cvt = ent
            if mode == 'list':
                cvt = ent.args[0].args[0]
            elif mode == 'dict':
                cvt = ent.args[0].args[0]
            elif mode == 'hash':
                cvt = ent.args[1]
            vs.append(Var(key, None, cvt, init, mode))
        normal = not s.dead

        def read(v, x):
            val = x.store.get(v.key)
            if val is None:
                val = self.base.get(v.key)
            if v.field is not None:
                val = dict(val.args[1]).get(v.field, mk('unbound', v.field))
            elif v.mode == 'vlist':
                val = self.seq(val, x)
            elif v.mode == 'hash':
                val = val.args[1]
            return self.freeze_owned(val, x, nown)
        for v in vs:
            v.U = read(v, s) if normal else v.cv_term()
            if v.mode == 'hash':
                v.alg = v.init.args[0]
                v.init = v.init.args[1]
        S = []
        for tag, val, x, target in stops:
            g = rel(x.guard, base.guard)
            r = Stop()
            r.tag, r.g, r.target = tag, g, target
            r.val = self.freeze_owned(val, x, nown) if val is not None else None
            r.B = [read(v, x) for v in vs]
            r.state = x
            S.append(r)
        # element-local attribute stores
        local = []
        ek = {mk('elem', it, lvl), mk('idx', it, lvl)}
        for key, val in s.store.items():
            if key[0] == 'q' and base.store.get(key) is not val:
                if not normal:
                    continue
                raise Undecided('nested element stores')
            if key[0] in ('a', 'c', 'd') and frees(key[1]) & ek:
                if key[0] == 'a' and key[1] in self.prov:
                    continue
                if key[0] == 'a' and key[1] is mk('elem', it, lvl):
                    local.append((key, self.freeze_owned(val, s, nown)))
                else:
                    raise Undecided('store to a part of a loop element: {} {} in loop over {}'.format(key[0], show(key[1], 4)[:300], show(it, 3)[:200]))
        cvs = {v.cv for v in vs}

        def cvfree(t):
            return not (frees(t) & cvs)

        # variables unchanged on the normal path, and induction variables
        m = {}
        changed = True
        while changed:
            changed = False
            for v in vs:
                if v.cv in m:
                    continue
                U = subst(v.U, m) if m else v.U
                if U is v.cv_term():
                    if v.mode in ('list', 'vlist', 'dict'):
                        m[v.cv] = unspread(v.init) if v.mode != 'dict' else v.init
                        if v.mode == 'dict' and len(v.init.args) == 1 and v.init.args[0].op == 'kvspread':
                            m[v.cv] = v.init.args[0].args[0]
                    else:
                        m[v.cv] = v.init
                    v.ind = C(0)
                    changed = True
                    continue
                if v.mode == 'val' and (is_num(v.cv) or U.op == 'poly'):
                    d = sub(U, v.cv)
                    if poly_const(d) is not None or (not (frees(d) & ek) and cvfree(d) and it is not FOREVER and False):
                        m[v.cv] = add(v.init, mul(d, mk('idx', it, lvl)))
                        v.ind = d
                        changed = True
        if m:
            for v in vs:
                v.U = subst(v.U, m)
            for r in S:
                r.g = subst(r.g, m)
                if r.val is not None:
                    r.val = subst(r.val, m)
                r.B = [subst(b, m) for b in r.B]
            local = [(k, subst(val, m)) for k, val in local]
        S = [r for r in S if r.g is not FALSE]
        live = [v for v in vs if v.cv not in m]
        # while -> for
        conv = None
        if it is FOREVER:
            conv = self.convert_while(vs, live, S, lvl, base, st, brk)
            if conv is not None:
                it, lvl, mm, dropped, fin = conv
                for v in vs:
                    v.U = subst(v.U, mm)
                for r in S:
                    r.g = subst(r.g, mm)
                    if r.val is not None:
                        r.val = subst(r.val, mm)
                    r.B = [subst(b, mm) for b in r.B]
                S = [r for r in S if r is not dropped]
                local = [(k, subst(val, mm)) for k, val in local]
        ctx = LoopCtx(self, it, lvl, lid, vs, S, base)
        G = Or([r.g for r in S])
        simple = it is not FOREVER and all(cvfree(r.g) for r in S)
        ctx.stop = G
        if S and local and any(r.tag in ('break', 'return') for r in S):
            raise Undecided('element stores in a loop that stops early')
        # ---- normal completion
        finals = {}
        if it is not FOREVER:
            for v in vs:
                if conv is not None and v in fin:
                    finals[v] = fin[v]
                elif v.ind is not None:
                    finals[v] = add(v.init, mul(v.ind, iter_len(it))) if v.ind is not C(0) else v.init
                else:
                    finals[v] = self.closed(v, ctx, cvfree)
        if not S:
            E = FALSE
        elif simple:
            E = exists(it, lvl, G)
        else:
            E = ctx.generic('loopstop', TRUE)
        res = []
        for n, r in enumerate(S):
            if it is FOREVER:
                cond = TRUE if len(S) == 1 else truth(ctx.generic('loopval', r.g))
            elif len(S) == 1:
                cond = E
            elif simple:
                cond = And([E, truth(first(it, lvl, G, r.g))])
            else:
                cond = And([E, truth(ctx.generic('loopval', r.g))])
            res.append(cond)

        def at_stop(t):
            if t is None:
                return None
            if t.op in ('exc',):
                return t
            if not (frees(t) & ({mk('elem', it, lvl), mk('idx', it, lvl)} | cvs)):
                return t
            if simple and cvfree(t):
                return first(it, lvl, G, t)
            if t.op == 'excsym':
                return mk('excsym', at_stop(t.args[0]))
            if t.op == 'tuple':
                return Tup([at_stop(x) for x in t.args])
            return ctx.generic('loopval', t)
        out_states = []
        for r, cond in zip(S, res):
            x = base.copy()
            x.guard = And([base.guard, cond])
            if x.guard is FALSE:
                continue
            for v, b in zip(vs, r.B):
                self.write_var(v, self.stop_value(v, b, at_stop, cvfree, ctx), x)
            val = at_stop(r.val)
            out_states.append((r, val, x))
        if it is not FOREVER:
            st.become(base.copy())
            st.guard = And([base.guard, Not(E)])
            if st.guard is FALSE:
                st.dead = True
            for v in vs:
                self.write_var(v, finals[v], st)
            if local and built_here(it):
                raise Undecided('stores to the elements of a list built here')
            for key, val in local:
                z = {mk('elem', it, lvl): mk('elem', it, 0), mk('idx', it, lvl): mk('idx', it, 0)} if lvl else {}
                st.store[('q', it, key[2])] = subst(val, z) if z else val
        else:
            st.become(base.copy())
            st.dead = True
        ends = []
        for r, val, x in out_states:
            if r.tag == 'break':
                brk.append(x)
            elif r.tag == 'wend':
                ends.append((None, x))
            else:
                fr.exits.append((r.tag, val, x, r.target))
        if ends:
            if len(ends) == 1:
                st.become(ends[0][1])
            else:
                _, y = self.merge_exits(ends, base.guard)
                st.become(y)
            st.dead = False

    def stop_value(self, v, b, at_stop, cvfree, ctx):
        if v.mode in ('list', 'vlist') and b.op == 'list':
            if not (frees(b) & ({mk('elem', ctx.it, ctx.k), mk('idx', ctx.it, ctx.k)} | {w.cv for w in ctx.vs})):
                return b
            t = ctx.generic('loopval', b)
            return mk('list', spread(t))
        if v.mode == 'dict' and b.op == 'dict':
            if not (frees(b) & ({mk('elem', ctx.it, ctx.k), mk('idx', ctx.it, ctx.k)} | {w.cv for w in ctx.vs})):
                return b
            return mk('dict', mk('kvspread', ctx.generic('loopval', b)))
        return at_stop(b)

    def write_var(self, v, val, x):
        if v.field is not None:
            c = self.get(x, v.key)
            f = dict(c.args[1])
            f[v.field] = val
            x.store[v.key] = mk('inst', c.args[0], tuple(sorted(f.items())))
            return
        if v.mode == 'vlist':
            x.store[v.key] = self.new(x, 'list', val if val.op == 'list' else mk('list', spread(val)))
            return
        if v.mode == 'hash':
            x.store[v.key] = mk('hashobj', v.alg, val)
            return
        x.store[v.key] = val

    # ---------------------------------------------------------- closed forms -
    def closed(self, v, ctx, cvfree):
        it, k = ctx.it, ctx.k
        U, cv = v.U, v.cv
        r = None
        if v.mode == 'val':
            r = self.closed_val(v, U, it, k, cvfree)
        elif v.mode in ('bytes', 'hash'):
            x = factor_cat(U, cv)
            if x is not None and cvfree(x):
                r = cat([v.init, eachcat(it, k, x, 'bytes')])
            elif cvfree(U):
                r = self.last_of(it, k, TRUE, U, v.init)
        elif v.mode in ('list', 'vlist'):
            r = self.closed_list(v, U, it, k, cvfree)
        elif v.mode == 'dict':
            r = self.closed_dict(v, U, it, k, cvfree)
        if r is not None:
            return r
        t = ctx.generic('loopend', v.cv_term())
        if v.mode in ('list', 'vlist'):
            return mk('list', spread(t))
        if v.mode == 'dict':
            return mk('dict', mk('kvspread', t))
        return t

    def nonempty(self, it):
        if it.op == 'range':
            return gt0(it.args[0])
        return truth(it)

    def last_of(self, it, k, g, val, init):
        from evalx import last_match
        ne = self.nonempty(it) if g is TRUE else exists(it, k, g)
        if not _has_bound(val, it, k):
            return ite(ne, val, init)
        return ite(ne, last_match(it, k, g, val), init)

    def closed_val(self, v, U, it, k, cvfree):
        cv = v.cv
        if cvfree(U):
            return self.last_of(it, k, TRUE, U, v.init)
        cs = cases(U, cv, cvfree)
        kn = kind(v.init)
        if cs is not None:
            if all(x is cv or cvfree(x) for _, x in cs):
                g = Or([c for c, x in cs if x is not cv])
                val = None
                for c, x in reversed(cs):
                    if x is cv:
                        continue
                    val = x if val is None else ite(c, x, val)
                return self.last_of(it, k, g, val, v.init)
            if kn in NUMK or kind(U) in NUMK or all(x is cv or x.op == 'poly' for _, x in cs):
                ds = [(c, sub(x, cv)) for c, x in cs]
                if all(cvfree(d) for _, d in ds):
                    d = None
                    for c, x in reversed(ds):
                        d = x if d is None else ite(c, x, d)
                    return add(v.init, eachsum(it, k, d))
        x = factor_cat(U, cv)
        if x is not None and cvfree(x) and kn in ('bytes', 'str'):
            return cat([v.init, eachcat(it, k, x, kn)], kn)
        x = factor_cat(U, cv, left=True)
        if x is not None and cvfree(x) and kn in ('bytes', 'str'):
            r = mk('rev', it)
            x = subst(x, {mk('elem', it, k): mk('elem', r, k), mk('idx', it, k): sub(sub(iter_len(it), C(1)), mk('idx', r, k))})
            return cat([eachcat(r, k, x, kn), v.init], kn)
        if U.op == 'ite' and U.args[0] is mk('truth', cv):
            if U.args[2] is cv and cvfree(U.args[1]):
                return And([truth(v.init), Not(exists(it, k, Not(truth(U.args[1]))))])
            if U.args[1] is cv and cvfree(U.args[2]):
                return Or([truth(v.init), exists(it, k, truth(U.args[2]))])
        if U.op in ('and', 'or') and mk('truth', cv) in U.args:
            rest = [a for a in U.args if a is not mk('truth', cv)]
            if all(cvfree(a) for a in rest):
                if U.op == 'and':
                    return And([truth(v.init), Not(exists(it, k, Not(And(rest))))])
                return Or([truth(v.init), exists(it, k, Or(rest))])
        return None

    def closed_list(self, v, U, it, k, cvfree):
        if U.op != 'list':
            return None
        sp = spread(v.cv)
        segs = list(U.args)
        if segs and segs[0] is sp and all(cvfree(x) for x in segs[1:]):
            e = each(it, k, segs[1:])
            return mklist(list(v.init.args) + ([e] if e is not None else []))
        if segs and segs[-1] is sp and all(cvfree(x) for x in segs[:-1]):
            r = mk('rev', it)
            mp = {mk('elem', it, k): mk('elem', r, k), mk('idx', it, k): sub(sub(iter_len(it), C(1)), mk('idx', r, k))}
            e = each(r, k, [subst(x, mp) for x in segs[:-1]])
            return mklist(([e] if e is not None else []) + list(v.init.args))
        if len(segs) == 1 and segs[0].op == 'upd' and segs[0].args[0] is v.cv and segs[0].args[1] is mk('idx', it, k):
            i0 = v.init
            val = segs[0].args[2]
            if len(i0.args) == 1 and i0.args[0].op == 'each' and i0.args[0].args[0] is it and len(i0.args[0].args[2]) == 1 \
                    and i0.args[0].args[2][0].op not in SEGOPS:
                old = item(i0, mk('idx', it, k))
                val = subst(val, {mk('item', v.cv, mk('idx', it, k)): old})
                if cvfree(val):
                    return mk('list', mk('each', it, k, (val,))) if k == 0 else mk('list', each(it, k, (val,)))
        if cvfree(U):
            if not U.args:
                return mklist(opt(Not(self.nonempty(it)), v.init.args)) if v.init.args else U
            return None
        return None

    def closed_dict(self, v, U, it, k, cvfree):
        if U.op != 'dict':
            return None
        sp = mk('kvspread', v.cv)
        ents = list(U.args)
        if not ents or ents[0] is not sp or not all(cvfree(x) for x in ents[1:]):
            return None
        if len(ents) == 2:
            e = ents[1]
            if e.op == 'kv':
                n = self.kveach(it, k, TRUE, e.args[0], e.args[1])
            elif e.op == 'kvopt':
                n = self.kveach(it, k, *e.args)
            else:
                return None
            return mkdict(list(v.init.args) + [n])
        if all(e.op in ('kv', 'kvopt') for e in ents[1:]):
            # several guarded stores under one key expression
            keys = {e.args[-2] for e in ents[1:]}
            if len(keys) == 1:
                g = Or([TRUE if e.op == 'kv' else e.args[0] for e in ents[1:]])
                val = None
                for e in ents[1:]:
                    val = e.args[-1] if val is None or e.op == 'kv' else ite(e.args[0], e.args[-1], val)
                return mkdict(list(v.init.args) + [self.kveach(it, k, g, next(iter(keys)), val)])
        return None

    def kveach(self, it, k, g, key, val):
        k2, (g, key, val) = canon_binder(it, k, (g, key, val))
        return mk('kveach', it, k2, g, key, val)

    # ------------------------------------------------------------ while->for -
    def convert_while(self, vs, live, S, lvl, base, st, brk):
        """(it, lvl, substitution, dropped stop, {var: final}) or None"""
        we = [r for r in S if r.tag == 'wend']
        if len(we) != 1:
            return None
        w = we[0]
        idx = mk('idx', FOREVER, lvl)
        # counter: stops when  not (N - idx > 0)
        g = w.g
        N = self.counted(g, idx, vs)
        if N is None and g.op == 'or' and not getattr(brk, 'orelse', True):
            # stops at the end of the sequence or for another reason: the latter is a break
            for d in g.args:
                N = self.counted(d, idx, vs)
                if N is not None:
                    r = Stop()
                    r.tag, r.target, r.val, r.B, r.state = 'break', w.target, w.val, list(w.B), w.state
                    r.g = Or([x for x in g.args if x is not d])
                    S.append(r)
                    break
        return self.convert_counted(vs, live, S, lvl, base, N, w, idx)

    def counted(self, g, idx, vs):
        N = None
        if g.op == 'not' and g.args[0].op == 'gt0' and g.args[0].args[0]:
            p = g.args[0].args[0]
            n = add(p, idx)
            if not (frees(n) & ({idx} | {v.cv for v in vs})):
                N = n
        elif g.op == 'gt0':
            # idx - N + 1 > 0
            p = g.args[0]
            n = sub(C(1), sub(p, idx))
            if not (frees(n) & ({idx} | {v.cv for v in vs})):
                N = n
        elif g.op == 'eq' and g.args[1] is C(0):
            for sg in (1, -1):
                n = sub(idx, g.args[0]) if sg == 1 else add(idx, g.args[0])
                if not (frees(n) & ({idx} | {v.cv for v in vs})) and n.op == 'len':
                    N = n
        return N

    def convert_counted(self, vs, live, S, lvl, base, N, w, idx):
        if N is not None:
            it = N.args[0] if N.op == 'len' else mk('range', N)
            k2 = sum(1 for e in self.loopstack if e[0] is it)
            fin = {}
            pos = _len_like(N)
            for v in vs:
                if v.ind is not None and v.ind is not C(0):
                    fin[v] = add(v.init, mul(v.ind, N)) if pos else \
                        ite(gt0(N), add(v.init, mul(v.ind, N)), v.init)
            return it, k2, {idx: mk('idx', it, k2)}, w, fin
        # queue: while L: x = L.pop(0)
        for v in live:
            if v.mode not in ('list', 'vlist'):
                continue
            cv = v.cv
            for end in (0, -1):
                rest = slice_(cv, C(1), NONE) if end == 0 else slice_(cv, NONE, C(-1))
                if v.U is mk('list', spread(rest)) and w.g is Not(truth(cv)):
                    b = unspread(self.freeze(v.init, base))
                    it = b if end == 0 else mk('rev', b)
                    k2 = sum(1 for e in self.loopstack if e[0] is it)
                    mm = {mk('item', cv, C(end)): mk('elem', it, k2)}
                    ok = True
                    for u in vs:
                        if u is not v and cv in frees(subst(u.U, mm)):
                            ok = False
                    for r in S:
                        if r is not w and (cv in frees(subst(r.g, mm)) or r.val is not None and cv in frees(subst(r.val, mm))):
                            ok = False
                    if ok:
                        return it, k2, mm, w, {v: mk('list')}
        return None


def join_kind(a, b):
    """kind of a variable that holds values of both kinds"""
    if a == b or a is None:
        return a
    if a in NUMK and b in NUMK:
        return next((k for k in ('float', 'decimal', 'num', 'int') if k in (a, b)), None)
    return None


def _len_like(n):
    return n.op in ('len', 'count')


def cases(U, cv, cvfree):
    """U as guarded leaves [(cond, leaf)] with conditions free of cv; None if a condition depends on cv"""
    if U.op == 'ite' and not cvfree(U):
        if not cvfree(U.args[0]):
            return None
        a = cases(U.args[1], cv, cvfree)
        b = cases(U.args[2], cv, cvfree)
        if a is None or b is None:
            return None
        return [(And([U.args[0], c]), x) for c, x in a] + [(And([Not(U.args[0]), c]), x) for c, x in b]
    return [(TRUE, U)]


def factor_cat(U, cv, left=False):
    """X with U = cv ++ X  (or X ++ cv)"""
    if U is cv:
        return EB if kind(cv) != 'str' else ES
    if U.op in ('cat', 'plus'):
        if not left and U.args[0] is cv:
            return cat(U.args[1:], kind(cv) or kind(U) or 'bytes')
        if left and U.args[-1] is cv:
            return cat(U.args[:-1], kind(cv) or kind(U) or 'bytes')
        return None
    if U.op == 'ite':
        a, b = factor_cat(U.args[1], cv, left), factor_cat(U.args[2], cv, left)
        if a is None or b is None:
            return None
        return ite(U.args[0], a, b)
    return None


class Var:
    __slots__ = ('key', 'field', 'cv', 'init', 'mode', 'U', 'ind', 'alg')

    def __init__(self, key, field, cv, init, mode):
        self.key, self.field, self.cv, self.init, self.mode = key, field, cv, init, mode
        self.ind = None
        self.U = None
        self.alg = None

    def cv_term(self):
        if self.mode in ('list', 'vlist'):
            return mk('list', spread(self.cv))
        if self.mode == 'dict':
            return mk('dict', mk('kvspread', self.cv))
        return self.cv


class Breaks(list):
    orelse = True


class Stop:
    __slots__ = ('tag', 'g', 'val', 'B', 'target', 'state')


LABELS = {}


class LoopCtx:
    def __init__(self, an, it, k, lid, vs, S, base):
        self.an, self.it, self.k, self.lid, self.vs, self.S, self.base = an, it, k, lid, vs, S, base
        self.stop = FALSE

    def generic(self, op, expr):
        by = {v.cv: v for v in self.vs}
        fz = lambda t: self.an.freeze(t, self.base)
        expr = fz(expr)
        stop = fz(self.stop)
        own = list(by)
        vars_ = [mk('var', fz(by[c].init), fz(by[c].U)) for c in own]
        return canon_loop(op, self.it, self.k, vars_, stop, expr, own, lambda c: LABELS.get(c, ''))
