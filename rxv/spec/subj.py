"""Reference behaviour of subjects and connectable observables (concrete oracle)."""


class Sub:
    """registered observers; a Subject delivers to those present when the call starts"""
    def __init__(self):
        self.obs = []
        self.changed = None

    def subscribe(self, o):
        self.add(o)

    def add(self, o):
        if not o.open:
            return
        self.obs.append(o)
        o.on_close(lambda: self.rm(o))
        if self.changed:
            self.changed(+1)

    def rm(self, o):
        if o in self.obs:
            self.obs.remove(o)
            if self.changed:
                self.changed(-1)

    def next(self, v):
        for o in list(self.obs):
            o.next(v)

    def error(self, e):
        obs, self.obs = self.obs, []
        for o in obs:
            o.error(e)

    def complete(self):
        obs, self.obs = self.obs, []
        for o in obs:
            o.complete()


class Behavior(Sub):
    def __init__(self, v):
        super().__init__()
        self.v, self.t = v, None

    def subscribe(self, o):
        if self.t:
            (o.error(self.t[1]) if self.t[0] == 'e' else o.complete())
            return
        o.next(self.v)
        self.add(o)

    def next(self, v):
        if not self.t:
            self.v = v
            super().next(v)

    def error(self, e):
        if not self.t:
            self.t = ('e', e)
            super().error(e)

    def complete(self):
        if not self.t:
            self.t = ('c',)
            super().complete()


class Replay(Sub):
    def __init__(self):
        super().__init__()
        self.items, self.t = [], None

    def subscribe(self, o):
        for x in list(self.items):
            o.next(x)
        if self.t:
            (o.error(self.t[1]) if self.t[0] == 'e' else o.complete())
        else:
            self.add(o)

    def next(self, v):
        if not self.t:
            self.items.append(v)
            super().next(v)

    def error(self, e):
        if not self.t:
            self.t = ('e', e)
            Sub.error(self, e)

    def complete(self):
        if not self.t:
            self.t = ('c',)
            Sub.complete(self)


class Async(Sub):
    def __init__(self):
        super().__init__()
        self.last, self.t = None, None

    def subscribe(self, o):
        if self.t is None:
            self.add(o)
        elif self.t[0] == 'e':
            o.error(self.t[1])
        else:
            if self.last is not None:
                o.next(self.last)
            o.complete()

    def next(self, v):
        if not self.t:
            self.last = v

    def error(self, e):
        if not self.t:
            self.t = ('e', e)
            super().error(e)

    def complete(self):
        if not self.t:
            self.t = ('c',)
            obs, self.obs = self.obs, []
            for o in obs:
                if self.last is not None:
                    o.next(self.last)
                o.complete()


class Publish:
    def __init__(self, w, src):
        self.w, self.src, self.s, self.c = w, src, Sub(), None

    def subscribe(self, o):
        self.s.add(o)

    def connect(self):
        from .interp import CObs
        c = CObs(self.s.next, self.s.error, self.s.complete)
        self.c = c
        self.w.subscribe(self.src, c)

    def disconnect(self):
        if self.c:
            self.c.close()


class RefCount(Publish):
    def __init__(self, w, src, s=None):
        super().__init__(w, src)
        if s:
            self.s = s

    def subscribe(self, o):
        self.s.subscribe(o)
        if o.open or self.s.obs:
            self.up()

    def up(self):
        if self.s.obs and not (self.c and self.c.open):
            self.s.changed = self.down
            self.connect()

    def down(self, d):
        if d < 0 and not self.s.obs and self.c:
            self.c.close()


class CReplay(RefCount):
    def __init__(self, w, src):
        super().__init__(w, src, Replay())

    def up(self):
        if not self.s.t:
            super().up()


def define(w, d):
    k = d[0]
    if k == 'plain': w.sbj[d[1]] = Sub()
    elif k == 'behavior': w.sbj[d[1]] = Behavior(d[2])
    elif k == 'replay': w.sbj[d[1]] = Replay()
    elif k == 'async': w.sbj[d[1]] = Async()
    elif k == 'publish': w.con[d[1]] = Publish(w, d[2])
    elif k == 'ref_count': w.con[d[1]] = RefCount(w, d[2])
    elif k == 'creplay': w.con[d[1]] = CReplay(w, d[2])
    else: raise ValueError(d)
