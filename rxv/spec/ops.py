"""Operator contracts: one state machine per operator, from the ReactiveX definitions.

A machine is used twice: symbolically by the verifier (values are z3 terms, `br` forks the
path) and concretely by the replay oracle (values are Python values).  Handlers are
generators that yield the actions the operator has to perform, in order:

  Next(v) Error(e) Complete()      on the subscriber
  Sub(kind, idx, src)              subscribe to a source; events of that subscription arrive
                                   at handlers with port kind `kind`
  Close(kind, idx)                 give up one source
  Side(tag, v)                     call a user side-effect function
  NewSubj() -> w; Subj(w, ev, v)   a fresh window / group and events on it

After a terminal, or once the subscriber is gone, every source must be closed and later
actions on the subscriber mean nothing.
`STATE` gives the typed state: int, bool, opt (optional item), seq (sequence of items),
seqs (one sequence per source), opts, bools (one per source), optint.
"""
from collections import namedtuple

Next = namedtuple('Next', 'v')
Error = namedtuple('Error', 'e')
Complete = namedtuple('Complete', '')
Sub = namedtuple('Sub', 'kind idx src')
Close = namedtuple('Close', 'kind idx')
Side = namedtuple('Side', 'tag v')
NewSubj = namedtuple('NewSubj', '')
Subj = namedtuple('Subj', 'w ev v')
Material = namedtuple('Material', 'tag v')   # tag: Next Error Complete


class Spec:
    """Default: forward errors and completion of any source."""
    STATE = {}
    PARAMS = {}

    def __init__(self, env, **params):
        self.env = env          # br, seq operations, item operations
        for k, v in params.items():
            setattr(self, k, v)

    def init(self, st):
        yield Sub('src', 0, ('src', 0))

    def error(self, st, port, e):
        yield Error(e)

    def complete(self, st, port):
        yield Complete()


class Map(Spec):
    PARAMS = {'f': 'fn'}

    def next(self, st, port, x):
        yield Next(self.f(x))


class MapToAny(Spec):
    def next(self, st, port, x):
        yield Next(('any', x))


class Filter(Spec):
    PARAMS = {'f': 'pred'}

    def next(self, st, port, x):
        if self.env.br(self.f(x)):
            yield Next(x)


class Take(Spec):
    PARAMS = {'n': 'nat'}
    STATE = {'c': 'int'}

    def init(self, st):
        st.c = 0
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        br = self.env.br
        st.c = st.c + 1
        done = br(st.c >= self.n)
        if br(st.c <= self.n):
            yield Next(x)
        if done:
            yield Complete()


class Skip(Spec):
    PARAMS = {'n': 'nat'}
    STATE = {'c': 'int'}

    def init(self, st):
        st.c = 0
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        st.c = st.c + 1
        if self.env.br(st.c > self.n):
            yield Next(x)


class TakeLast(Spec):
    PARAMS = {'n': 'nat'}
    STATE = {'items': 'seq'}

    def init(self, st):
        st.items = self.env.seq_empty()
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        e = self.env
        st.items = e.seq_push(st.items, x)
        if e.br(e.seq_len(st.items) > self.n):
            st.items = e.seq_tail(st.items)
        return
        yield

    def complete(self, st, port):
        yield from self.env.emit_all(st.items)
        yield Complete()


class SkipLast(Spec):
    PARAMS = {'n': 'nat'}
    STATE = {'items': 'seq'}

    def init(self, st):
        st.items = self.env.seq_empty()
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        e = self.env
        st.items = e.seq_push(st.items, x)
        if e.br(e.seq_len(st.items) > self.n):
            h = e.seq_head(st.items)
            st.items = e.seq_tail(st.items)
            yield Next(h)


class TakeWhile(Spec):
    PARAMS = {'f': 'pred'}

    def next(self, st, port, x):
        if self.env.br(self.f(x)):
            yield Next(x)
        else:
            yield Complete()


class SkipWhile(Spec):
    PARAMS = {'f': 'pred'}
    STATE = {'on': 'bool'}

    def init(self, st):
        st.on = False
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        br = self.env.br
        if br(st.on):
            yield Next(x)
        elif not br(self.f(x)):
            st.on = True
            yield Next(x)


class First(Take):
    PARAMS = {}
    n = 1


class Last(Spec):
    STATE = {'last': 'opt'}

    def init(self, st):
        st.last = None
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        st.last = x
        return
        yield

    def complete(self, st, port):
        if st.last is not None:
            yield Next(st.last)
        yield Complete()


class ElementAt(Spec):
    """1-based; element_at(0) is out of range: nothing, completes like take(0)."""
    PARAMS = {'n': 'nat'}
    STATE = {'c': 'int'}

    def init(self, st):
        st.c = 0
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        br = self.env.br
        st.c = st.c + 1
        if br(st.c == self.n):
            yield Next(x)
        if br(st.c >= self.n):
            yield Complete()


class Distinct(Spec):
    STATE = {'last': 'opt'}

    def init(self, st):
        st.last = None
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        if st.last is not None and self.env.br(self.env.eq(st.last, x)):
            return
        st.last = x
        yield Next(x)


class Scan(Spec):
    PARAMS = {'f': 'fn2'}
    STATE = {'acc': 'opt'}

    def init(self, st):
        st.acc = None
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        st.acc = x if st.acc is None else self.f(st.acc, x)
        yield Next(st.acc)


class Reduce(Scan):
    def next(self, st, port, x):
        st.acc = x if st.acc is None else self.f(st.acc, x)
        return
        yield

    def complete(self, st, port):
        if st.acc is not None:
            yield Next(st.acc)
        yield Complete()


class Sum(Reduce):
    PARAMS = {}

    def f(self, a, b):
        return self.env.add(a, b)


class Min(Reduce):
    PARAMS = {}

    def f(self, a, b):
        return self.env.min(a, b)


class Max(Reduce):
    PARAMS = {}

    def f(self, a, b):
        return self.env.max(a, b)


class Count(Spec):
    STATE = {'c': 'int'}

    def init(self, st):
        st.c = 0
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        st.c = st.c + 1
        return
        yield

    def complete(self, st, port):
        yield Next(st.c)
        yield Complete()


class SumAndCount(Spec):
    STATE = {'c': 'int', 'acc': 'opt'}

    def init(self, st):
        st.c = 0
        st.acc = None
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        st.c = st.c + 1
        st.acc = x if st.acc is None else self.env.add(st.acc, x)
        return
        yield

    def complete(self, st, port):
        if st.acc is not None:
            yield Next((st.acc, st.c))
        yield Complete()


class All(Spec):
    PARAMS = {'f': 'pred'}

    def next(self, st, port, x):
        if not self.env.br(self.f(x)):
            yield Next(False)
            yield Complete()

    def complete(self, st, port):
        yield Next(True)
        yield Complete()


class Contains(Spec):
    """An error counts as `not contained` (the crate's asserted test contains::error)."""
    PARAMS = {'t': 'item'}

    def next(self, st, port, x):
        if self.env.br(self.env.eq(x, self.t)):
            yield Next(True)
            yield Complete()

    def error(self, st, port, e):
        yield Next(False)
        yield Complete()

    def complete(self, st, port):
        yield Next(False)
        yield Complete()


class DefaultIfEmpty(Spec):
    PARAMS = {'d': 'item'}
    STATE = {'any': 'bool'}

    def init(self, st):
        st.any = False
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        st.any = True
        yield Next(x)

    def complete(self, st, port):
        if not self.env.br(st.any):
            yield Next(self.d)
        yield Complete()


class IgnoreElements(Spec):
    def next(self, st, port, x):
        return
        yield


class StartWith(Spec):
    PARAMS = {'items': 'items'}

    def init(self, st):
        yield from self.env.emit_all(self.items)
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        yield Next(x)


class BufferWithCount(Spec):
    PARAMS = {'n': 'pos'}
    STATE = {'buf': 'seq'}

    def init(self, st):
        st.buf = self.env.seq_empty()
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        e = self.env
        st.buf = e.seq_push(st.buf, x)
        if e.br(e.seq_len(st.buf) >= self.n):
            v = st.buf
            st.buf = e.seq_empty()
            yield Next(v)

    def complete(self, st, port):
        e = self.env
        if e.br(e.seq_len(st.buf) > 0):
            yield Next(st.buf)
        yield Complete()


class Materialize(Spec):
    def next(self, st, port, x):
        yield Next(Material('Next', x))

    def error(self, st, port, e):
        yield Next(Material('Error', e))
        yield Complete()

    def complete(self, st, port):
        yield Next(Material('Complete', None))
        yield Complete()


class Dematerialize(Spec):
    ITEM = 'material'

    def next(self, st, port, x):
        if x.tag == 'Next':
            yield Next(x.v)
        elif x.tag == 'Error':
            yield Error(x.v)
        else:
            yield Complete()


class Tap(Spec):
    PARAMS = {'sn': 'side', 'se': 'side', 'sc': 'side'}

    def next(self, st, port, x):
        yield Side('next', x)
        yield Next(x)

    def error(self, st, port, e):
        yield Side('error', e)
        yield Error(e)

    def complete(self, st, port):
        yield Side('complete', None)
        yield Complete()


class WindowWithCount(Spec):
    PARAMS = {'n': 'pos'}
    STATE = {'c': 'int', 'w': 'optsubj'}

    def init(self, st):
        st.c = 0
        st.w = None
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        if st.w is None:
            st.w = yield NewSubj()
            st.c = 0
            yield Next(('win', st.w))
        st.c = st.c + 1
        w = st.w
        full = self.env.br(st.c >= self.n)
        if full:
            st.w = None
            st.c = 0
        yield Subj(w, 'next', x)
        if full:
            yield Subj(w, 'complete', None)

    def error(self, st, port, e):
        if st.w is not None:
            yield Subj(st.w, 'error', e)
        yield Error(e)

    def complete(self, st, port):
        if st.w is not None:
            yield Subj(st.w, 'complete', None)
        yield Complete()


class GroupBy(Spec):
    PARAMS = {'f': 'key'}
    STATE = {'g': 'mapsubj'}

    def init(self, st):
        st.g = self.env.map_empty()
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        e = self.env
        k = self.f(x)
        w = e.map_get(st.g, k)
        if w is None:
            w = yield NewSubj()
            st.g = e.map_put(st.g, k, w)
            yield Next(('win', w))
        yield Subj(w, 'next', x)

    def error(self, st, port, e):
        yield from self.env.map_all(st.g, 'error', e)
        yield Error(e)

    def complete(self, st, port):
        yield from self.env.map_all(st.g, 'complete', None)
        yield Complete()


class TimeInterval(Spec):
    STATE = {'t': 'optint'}

    def init(self, st):
        st.t = None
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        now = self.env.now()
        prev, st.t = st.t, now
        if prev is not None:
            yield Next(now - prev)

    def complete(self, st, port):
        if st.t is not None:
            yield Next(self.env.now() - st.t)
        yield Complete()


class Timestamp(Spec):
    def next(self, st, port, x):
        yield Next((self.env.now(), x))


class Delay(Spec):
    PARAMS = {'d': 'dur'}

    def next(self, st, port, x):
        self.env.sleep(self.d)
        yield Next(x)


# ---------------------------------------------------------------- several sources
class NAry(Spec):
    """source 0 is the receiver, 1..n-1 the argument list."""
    PARAMS = {'k': 'arity'}
    STATE = {'live': 'bools'}

    def init(self, st):
        st.live = [True] * self.k
        for i in range(self.k):
            yield Sub('src', i, ('src', i))

    def finished(self, st, i):
        st.live = [False if j == i else v for j, v in enumerate(st.live)]
        return not self.env.br(self.env.any(st.live))

    def complete(self, st, port):
        if self.finished(st, port.idx):
            yield Complete()


class Merge(NAry):
    def next(self, st, port, x):
        yield Next(x)


class Zip(NAry):
    STATE = {'live': 'bools', 'q': 'seqs'}

    def init(self, st):
        st.q = [self.env.seq_empty() for _ in range(self.k)]
        yield from super().init(st)

    def next(self, st, port, x):
        e = self.env
        st.q = [e.seq_push(q, x) if i == port.idx else q for i, q in enumerate(st.q)]
        if all(e.br(e.seq_len(q) > 0) for q in st.q):
            t = [e.seq_head(q) for q in st.q]
            st.q = [e.seq_tail(q) for q in st.q]
            yield Next(self.out(t))

    def inv(self, st):
        """some queue is always empty between events"""
        e = self.env
        return [e.any([e.seq_len(q) == 0 for q in st.q])]

    def out(self, t):
        return list(t)


class CombineLatest(NAry):
    PARAMS = {'k': 'arity', 'f': 'fnlist'}
    STATE = {'live': 'bools', 'v': 'opts'}

    def init(self, st):
        st.v = [None] * self.k
        yield from super().init(st)

    def next(self, st, port, x):
        st.v = [x if i == port.idx else v for i, v in enumerate(st.v)]
        if all(v is not None for v in st.v):
            yield Next(self.f(list(st.v)))


class SequenceEqual(Zip):
    """answers as soon as the items and ends seen so far decide it"""
    def next(self, st, port, x):
        e = self.env
        st.q = [e.seq_push(q, x) if i == port.idx else q for i, q in enumerate(st.q)]
        yield from self.judge(st)

    def judge(self, st):
        e = self.env
        full = [e.br(e.seq_len(q) > 0) for q in st.q]
        if all(full):
            t = [e.seq_head(q) for q in st.q]
            st.q = [e.seq_tail(q) for q in st.q]
            if not all(e.br(e.eq(t[0], v)) for v in t):
                yield Next(False)
                yield Complete()
                return
            full = [e.br(e.seq_len(q) > 0) for q in st.q]
        live = [e.br(l) for l in st.live]
        if any(not l and not f for l, f in zip(live, full)):
            if any(full):
                yield Next(False)
                yield Complete()
            elif not any(live):
                yield Next(True)
                yield Complete()

    def complete(self, st, port):
        st.live = [False if j == port.idx else v for j, v in enumerate(st.live)]
        yield from self.judge(st)


class Amb(NAry):
    """mirrors the first source to signal; a loser is cut when it signals."""
    STATE = {'w': 'optint'}

    def init(self, st):
        st.w = None
        for i in range(self.k):
            yield Sub('src', i, ('src', i))

    def win(self, st, i):
        if st.w is None:
            st.w = i
            return True
        return self.env.br(st.w == i)

    def next(self, st, port, x):
        if self.win(st, port.idx):
            yield Next(x)
        else:
            yield Close('src', port.idx)

    def error(self, st, port, e):
        if self.win(st, port.idx):
            yield Error(e)

    def complete(self, st, port):
        if self.win(st, port.idx):
            yield Complete()


class Concat(Spec):
    PARAMS = {'k': 'arity'}
    STATE = {}

    def next(self, st, port, x):
        yield Next(x)

    def complete(self, st, port):
        if port.idx + 1 < self.k:
            yield Sub('src', port.idx + 1, ('src', port.idx + 1))
        else:
            yield Complete()


class TakeUntil(Spec):
    K = 2
    TRIGGER = 1

    def init(self, st):
        yield Sub('trig', 1, ('src', 1))
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        if port.kind == 'trig':
            yield Complete()
        else:
            yield Next(x)

    def error(self, st, port, e):
        if port.kind == 'src':
            yield Error(e)

    def complete(self, st, port):
        if port.kind == 'src':
            yield Complete()


class SkipUntil(TakeUntil):
    STATE = {'on': 'bool'}

    def init(self, st):
        st.on = False
        yield from super().init(st)

    def next(self, st, port, x):
        if port.kind == 'trig':
            st.on = True
            yield Close('trig', 1)
        elif self.env.br(st.on):
            yield Next(x)


class Sample(TakeUntil):
    STATE = {'v': 'opt'}

    def init(self, st):
        st.v = None
        yield from super().init(st)

    def next(self, st, port, x):
        if port.kind == 'src':
            st.v = x
        elif st.v is not None:
            v, st.v = st.v, None
            yield Next(v)


class SwitchOnNext(Spec):
    """the crate's two-source form: mirrors the source until the target's first item."""
    K = 2
    STATE = {'sw': 'bool'}

    def init(self, st):
        st.sw = False
        yield Sub('src', 0, ('src', 0))
        yield Sub('trig', 1, ('src', 1))

    def next(self, st, port, x):
        if port.kind == 'trig':
            st.sw = True
            yield Next(x)
        elif self.env.br(st.sw):
            yield Close('src', 0)
        else:
            yield Next(x)

    def complete(self, st, port):
        if port.kind == 'trig':
            yield Complete()


class FlatMap(Spec):
    PARAMS = {'f': 'obsfn'}
    STATE = {'main': 'bool', 'n': 'int'}     # main live, number of live inner sources

    def init(self, st):
        st.main = True
        st.n = 0
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        if port.kind == 'src':
            st.n = st.n + 1
            yield Sub('inner', 0, ('obs', self.f(x)))
        else:
            yield Next(x)

    def complete(self, st, port):
        br = self.env.br
        if port.kind == 'src':
            st.main = False
        else:
            st.n = st.n - 1
        if br(st.n == 0) and not br(st.main):
            yield Complete()


class Retry(Spec):
    PARAMS = {'n': 'nat'}
    STATE = {'a': 'int'}                      # attempts started

    def init(self, st):
        st.a = 1
        yield Sub('src', 0, ('src', 0))

    def next(self, st, port, x):
        yield Next(x)

    def error(self, st, port, e):
        br = self.env.br
        if br(self.n == 0) or br(st.a < self.n):
            st.a = st.a + 1
            yield Sub('src', 0, ('src', 0))
        else:
            yield Error(e)


class RetryWhen(Spec):
    PARAMS = {'f': 'errpred'}

    def next(self, st, port, x):
        yield Next(x)

    def error(self, st, port, e):
        if self.env.br(self.f(e)):
            yield Sub('src', 0, ('src', 0))
        else:
            yield Error(e)


class OnErrorResumeNext(Spec):
    PARAMS = {'f': 'errobsfn'}

    def next(self, st, port, x):
        yield Next(x)

    def error(self, st, port, e):
        if port.kind == 'src':
            yield Sub('inner', 0, ('obs', self.f(e)))
        else:
            yield Error(e)


OPS = {
    'map': Map, 'map_to_any': MapToAny, 'filter': Filter, 'take': Take, 'skip': Skip,
    'take_last': TakeLast, 'skip_last': SkipLast, 'take_while': TakeWhile,
    'skip_while': SkipWhile, 'first': First, 'last': Last, 'element_at': ElementAt,
    'distinct_until_changed': Distinct, 'scan': Scan, 'reduce': Reduce, 'sum': Sum,
    'min': Min, 'max': Max, 'count': Count, 'sum_and_count': SumAndCount, 'all': All,
    'contains': Contains, 'default_if_empty': DefaultIfEmpty,
    'ignore_elements': IgnoreElements, 'start_with': StartWith,
    'buffer_with_count': BufferWithCount, 'materialize': Materialize,
    'dematerialize': Dematerialize, 'tap': Tap, 'window_with_count': WindowWithCount,
    'group_by': GroupBy, 'time_interval': TimeInterval, 'timestamp': Timestamp,
    'delay': Delay, 'merge': Merge, 'zip': Zip, 'combine_latest': CombineLatest,
    'sequence_equal': SequenceEqual, 'amb': Amb, 'concat': Concat,
    'take_until': TakeUntil, 'skip_until': SkipUntil, 'sample': Sample,
    'switch_on_next': SwitchOnNext, 'flat_map': FlatMap, 'retry': Retry,
    'retry_when': RetryWhen, 'on_error_resume_next': OnErrorResumeNext,
}


# ---------------------------------------------------------------- creation functions
class Create(Spec):
    """no source of its own"""
    def init(self, st):
        return
        yield


class Just(Create):
    PARAMS = {'x': 'item'}

    def init(self, st):
        yield Next(self.x)
        yield Complete()


class FromIter(Create):
    PARAMS = {'items': 'iter'}

    def init(self, st):
        yield from self.env.emit_all(self.items)
        yield Complete()


class Range(Create):
    PARAMS = {'a': 'int', 'n': 'int'}

    def init(self, st):
        yield from self.env.emit_range(self.a, self.n)
        yield Complete()


class Empty(Create):
    def init(self, st):
        yield Complete()


class Never(Create):
    pass


class ErrorF(Create):
    PARAMS = {'e': 'item'}

    def init(self, st):
        yield Error(self.e)


class Start(Create):
    PARAMS = {'f': 'fn0'}

    def init(self, st):
        yield Side('f', None)
        yield Next(self.f())
        yield Complete()


class Defer(Create):
    PARAMS = {'f': 'obsfn0'}

    def init(self, st):
        yield Sub('src', 0, ('obs', self.f()))

    def next(self, st, port, x):
        yield Next(x)


class FromResult(Create):
    PARAMS = {'r': 'result'}

    def init(self, st):
        if self.r[0] == 'ok':
            yield Next(self.r[1])
            yield Complete()
        else:
            yield Error(self.r[1])


class Repeat(Create):
    PARAMS = {'x': 'item'}

    def init(self, st):
        yield from self.env.forever(self.x)


class ReadySetGo(Spec):
    """subscribes first, then runs the action"""
    PARAMS = {'f': 'act', 'o': 'recv'}

    def init(self, st):
        yield Sub('src', 0, ('src', 0))
        yield Side('act', None)

    def next(self, st, port, x):
        yield Next(x)


CREATE = {
    'just': Just, 'from_iter': FromIter, 'range': Range, 'empty': Empty, 'never': Never,
    'error': ErrorF, 'start': Start, 'defer': Defer, 'from_result': FromResult,
    'repeat': Repeat,
}
