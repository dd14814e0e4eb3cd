"""A program trace recorded by running a small parser described by a string of steps."""
from polytracker import BasicBlock, ByteOffset, Function, Taints
from polytracker.inputs import Input
from polytracker.tracing import BasicBlockEntry, ByteAccessType, FunctionEntry, FunctionReturn, ProgramTrace, TaintAccess, TraceEvent


class Block(BasicBlock):
    def taints(self):
        raise NotImplementedError()

    def entries(self):
        raise NotImplementedError()


class Fn(Function):
    def taints(self):
        raise NotImplementedError()

    def calls_to(self):
        raise NotImplementedError()

    def called_from(self):
        raise NotImplementedError()


class Ev(TraceEvent):
    def __init__(self, tr, entry):
        super().__init__(len(tr.events))
        self.tr = tr
        tr.events.append(self)
        self._entry = entry or self
        self.consumed = []

    @property
    def function(self):
        return self._entry._fn

    @property
    def previous_event(self):
        return self.tr.events[self.uid - 1] if self.uid else None

    @property
    def next_event(self):
        return self.tr.events[self.uid + 1] if self.uid + 1 < len(self.tr.events) else None

    next_global_event = next_event
    previous_global_event = previous_event

    @property
    def function_entry(self):
        return self._entry

    def taints(self):
        return Taints(ByteOffset(source=self.tr.source, offset=i) for i in self.consumed)


class BB(Ev, BasicBlockEntry):
    def __init__(self, tr, entry, name):
        super().__init__(tr, entry)
        d = tr.blocks.setdefault(entry._fn.name, {})
        if name not in d:
            d[name] = Block(entry._fn, len(d))
        self._bb = d[name]

    @property
    def basic_block(self):
        return self._bb


class Entry(Ev, FunctionEntry):
    def __init__(self, tr, name):
        self._fn = tr.fns.setdefault(name, None) or tr.fns.__setitem__(name, Fn(name, len(tr.fns))) or tr.fns[name]
        self._ret = None
        super().__init__(tr, None)

    @property
    def function_return(self):
        return self._ret


class Ret(Ev, FunctionReturn):
    def __init__(self, tr, entry, bb):
        super().__init__(tr, entry)
        self._bb = bb

    @property
    def basic_block(self):
        return self._bb


class Other(Ev):
    """An event that has nothing to do with control flow."""

    @property
    def basic_block(self):
        return self._bb


class Access(TaintAccess):
    def taints(self):
        return self.event.tr.taints_at(self.label)


class Trace(ProgramTrace):
    """steps: r read, p peek, s skip, k step back, b new block, l first block again, f/g call, ) return, ] return within
    the basic block that called, o an event of another kind, ! the program ends at once."""

    def __init__(self, content, steps, names="fg"):
        self.source = Input(uid=1, path="in", size=len(content), content=content)
        self.content = content
        self.events, self.fns, self.blocks = [], {}, {}
        self.pos = 0
        self.stack = []
        self.accesses = []
        self._call("main")
        for s in steps:
            top = self.stack[-1]
            if s in "rp":
                if self.pos < len(content):
                    top[1].consumed.append(self.pos)
                    self.accesses.append(Access(len(self.accesses), top[1], self.pos, ByteAccessType.READ_ACCESS))
                    if s == "r":
                        self.pos += 1
            elif s == "s":
                self.pos = min(self.pos + 1, len(content))
            elif s == "k":
                self.pos = max(self.pos - 1, 0)
            elif s == "b":
                top[2] += 1
                top[1] = BB(self, top[0], f"b{top[2]}")
            elif s == "l":
                top[1] = BB(self, top[0], "entry")
            elif s in ")]":
                self._ret(s == ")")
            elif s == "o":
                Other(self, top[0])._bb = top[1]._bb
            elif s == "!":
                break
            else:
                self._call(s)
        while self.stack and "!" not in steps:
            self._ret()

    def taints_at(self, offset):
        return Taints((ByteOffset(source=self.source, offset=offset),))

    def _call(self, name):
        e = Entry(self, name)
        self.stack.append([e, BB(self, e, "entry"), 0])

    def _ret(self, enter=True):
        e, bb, _ = self.stack.pop()
        e._ret = Ret(self, e, bb._bb)
        if self.stack and enter:
            top = self.stack[-1]
            top[2] += 1
            top[1] = BB(self, top[0], f"after{top[2]}")

    def __len__(self):
        return len(self.events)

    def __iter__(self):
        return iter(self.events)

    @property
    def functions(self):
        return self.fns.values()

    @property
    def basic_blocks(self):
        return [b for d in self.blocks.values() for b in d.values()]

    def has_event(self, uid):
        return 0 <= uid < len(self.events)

    def get_event(self, uid):
        return self.events[uid]

    __getitem__ = get_event
    __contains__ = has_event

    def get_function(self, name):
        return self.fns[name]

    def has_function(self, name):
        return name in self.fns

    def access_sequence(self):
        return iter(self.accesses)

    @property
    def num_accesses(self):
        return len(self.accesses)

    @property
    def inputs(self):
        return (self.source,)

    @property
    def taint_forest(self):
        raise NotImplementedError()

    def file_offset(self, node):
        raise NotImplementedError()

    @property
    def outputs(self):
        raise NotImplementedError()

    @property
    def output_taints(self):
        raise NotImplementedError()
