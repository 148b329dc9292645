"""Effect contracts: which external effects a function may have, checked over every call of the program's MIR.

A function `may reach' an external operation when it calls it, calls or creates a closure that may reach it, or mentions a function
that may reach it.  The contract `f does not have effect x' is checked function by function: every function f calls either is
declared (the cut: functions whose own contract says what they do with x) or has the same contract."""
import re


class Effects:
    def __init__(self, e):
        self.e = e
        self.edges = {}
        for i, f in e.fns.items():
            self.edges[i] = self.refs(f)

    def refs(self, f):
        e = self.e
        out = set()

        def ty(t):
            x = e.ty[t].get('inst') if isinstance(t, int) and 0 <= t < len(e.ty.t) else None
            if x is not None:
                out.add(x)
        for t in f.get('locals', ()):
            ty(t)
        stack = [f.get('blocks')]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'inst' and isinstance(x[1], int):
                    out.add(x[1])
                if len(x) == 3 and x[0] == 'c':
                    ty(x[1])
                stack.extend(x)
            elif isinstance(x, dict):
                stack.extend(x.values())
        return out

    def find(self, rx):
        r = re.compile(rx)
        return {i for i, f in self.e.fns.items() if r.search(f['nname'])}

    def path(self, start, sinks, cut=()):
        """names along a call path from one of start to one of sinks that enters no function of cut, or None"""
        seen = {i: None for i in start}
        todo = list(start)
        while todo:
            i = todo.pop()
            if i in sinks:
                p = []
                while i is not None:
                    p.append(self.e.fns[i]['nname'])
                    i = seen[i]
                return p[::-1]
            for j in sorted(self.edges.get(i, ())):
                if j not in seen and j not in cut and j in self.e.fns:
                    seen[j] = i
                    todo.append(j)
        return None
