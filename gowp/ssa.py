import json


class Fn:
    def __init__(self, j):
        self.name = j['name']
        self.params = j['params']
        self.freevars = j['freevars']
        self.blocks = j.get('blocks')
        self.sig = j['sig']
        self.pos = j.get('pos')
        self.pkg = j.get('pkg')
        self.synthetic = j.get('synthetic')
        self._loops = None
        self._rpo = None

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.blocks[0]['succ']))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.blocks[s]['succ'])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    def live_in(self):
        """registers used in or after each block (phi results and edges aside, which are taken with the edge)"""
        if getattr(self, '_live', None) is not None:
            return self._live

        def regs(x, out):
            if isinstance(x, dict):
                if x.get('k') == 'reg':
                    out.add(x['name'])
                else:
                    for y in x.values():
                        if isinstance(y, (dict, list)):
                            regs(y, out)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, (dict, list)):
                        regs(y, out)
        use, dfn, edge = [], [], {}
        for b, blk in enumerate(self.blocks):
            u, d = set(), set()
            for ins in blk['i']:
                if ins['op'] == 'phi':
                    for q, e in zip(blk['pred'], ins['edges']):
                        s = set()
                        regs(e, s)
                        edge.setdefault((q, b), set()).update(s)
                    d.add(ins['r'])
                    continue
                s = set()
                regs({k: v for k, v in ins.items() if k != 'r'}, s)
                u |= s - d
                if ins.get('r'):
                    d.add(ins['r'])
            use.append(u)
            dfn.append(d)
        live = [set(u) for u in use]
        changed = True
        while changed:
            changed = False
            for b in range(len(self.blocks) - 1, -1, -1):
                o = set()
                for s in self.blocks[b]['succ']:
                    o |= live[s] | edge.get((b, s), set())
                n = use[b] | (o - dfn[b])
                if not n <= live[b]:
                    live[b] |= n
                    changed = True
        # phis of the block are live at its start here: their values are taken with the edge
        self._live = live
        return live

    def dominates(self, a, b):
        while b != -1:
            if a == b:
                return True
            b = self.blocks[b]['idom']
        return False

    def loops(self):
        """header -> set of body blocks"""
        if self._loops is None:
            L = {}
            rpo = self.rpo()
            for b in rpo:
                for s in self.blocks[b]['succ']:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(p for p in self.blocks[x]['pred'] if p in rpo)
            self._loops = L
        return self._loops


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {k: Fn(v) for k, v in d['fns'].items()}
        self.methods = d['methods']

    def u(self, t):
        """underlying type record"""
        r = self.types[t]
        while r['k'] == 'named':
            r = self.types[r['u']]
        return r

    def tname(self, t):
        return self.types[t]['s']

    def type_by_name(self, s):
        for i, t in enumerate(self.types):
            if t['s'] == s:
                return i
        raise KeyError(s)
