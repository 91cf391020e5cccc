"""Stack discipline monitor: watches the frame and stack pointer words of linear memory
(addresses 0 and 8) at every activation of a module's functions and every library call.

mode letters (opts['mon']): always checked: the frame pointer is restored, the saved frame
pointer is the caller's, the stack never shrinks below the activation's own frame.
 b  every call of one activation starts at the same stack pointer (no leak; not for
    activations that create arrays)
 f  an activation leaves every byte of its callers' frames alone (programs without pointers)
 t  flat: library calls of one kind always see the same stack pointer, and no function is
    active more than once at a time (tail recursion)
"""
from sym import Mem, Mismatch, eq


class Act:
    __slots__ = ('func', 'fp', 'base', 'snap', 'saved')

    def __init__(self, func, fp, saved):
        self.func, self.fp, self.saved, self.base, self.snap = func, fp, saved, None, None


class Monitor:
    def __init__(self, ctx, mode):
        self.ctx, self.mode = ctx, mode
        self.stack = []
        self.flat = {}
        self.checks = 0
        self.trace = []

    def word(self, m, a):
        v = m.mem.load_int(a, 4)
        return self.ctx.concretise(v, 32)

    def bad(self, what):
        if not self.ctx.check():
            return
        raise Mismatch("stack: " + what, self.ctx.last_model)

    def want(self, c, what):
        self.checks += 1
        if not c:
            self.bad(what)

    def frame(self, m):
        """a frame has just been set up by the current activation"""
        fp, sp, saved = self.word(m, 0), self.word(m, 8), None
        if self.stack:
            c = self.stack[-1]
            saved = self.word(m, fp)
            if c.fp is None:
                c.fp = saved
                c.saved = self.word(m, saved)
            if fp == c.fp:
                # a tail call of another function: its frame replaces the caller's
                self.want(saved == c.saved, "the replaced frame at %d saves frame pointer %d instead of %d" % (
                    fp, saved, c.saved))
                return fp, sp, saved
            self.want(saved == c.fp, "the frame at %d saves frame pointer %d, its caller's is %d" % (fp, saved, c.fp))
            self.want(sp >= fp + 4 and fp >= c.fp, "new frame at %d..%d, caller's frame at %d" % (fp, sp, c.fp))
            if c.base is None:
                c.base = fp
            elif 'b' in self.mode:
                self.want(fp == c.base, "a later call of the same activation starts at %d, an earlier one at %d" % (fp, c.base))
            else:
                self.want(fp >= c.base, "a later call of the same activation starts at %d, an earlier one at %d" % (fp, c.base))
                c.base = fp
        return fp, sp, saved

    def enter(self, m, f):
        if not self.stack:
            self.stack.append(Act(f, None, None))
            return
        fp, sp, saved = self.frame(m)
        a = Act(f, fp, saved)
        if 'f' in self.mode:
            # a frame that a tail call replaces is not the caller's any more
            lo = self.stack[-1].fp
            a.snap = (lo, {k: v for k, v in m.mem.d.items() if lo <= k < fp})
        if 't' in self.mode:
            self.want(all(b.func is not f for b in self.stack), "a function is active twice at once")
        self.stack.append(a)

    def leave(self, m, f):
        a = self.stack.pop()
        if not self.stack:
            return
        fp, sp = self.word(m, 0), self.word(m, 8)
        self.want(fp == a.fp, "function returns with frame pointer %d, entered with %d" % (fp, a.fp))
        self.want(self.word(m, a.fp) == a.saved, "the saved frame pointer was overwritten")
        self.want(sp >= a.fp, "function returns with stack pointer %d below its frame %d" % (sp, a.fp))
        if 'b' in self.mode and a.base is not None:
            self.want(sp == a.base, "function ends with stack pointer %d, its calls started at %d" % (sp, a.base))
        if a.snap:
            lo, d = a.snap
            old = Mem(0)
            old.d = d
            for k, v in d.items():
                if m.mem.d.get(k) is not v:
                    self.ctx.prove(eq(m.mem.byte(k), old.byte(k), 8), "stack: byte %d of a caller's frame was changed" % k)
            self.checks += len(d)

    def host(self, m, name):
        if name == 'log_stack_ptr':
            return
        fp, sp, saved = self.frame(m)
        self.trace.append((name, fp, sp))
        if 't' in self.mode:
            k = (self.stack[-1].func.index if hasattr(self.stack[-1].func, 'index') else id(self.stack[-1].func), name,
                 self.word(m, fp + 8) if name == 'printf' else 0)
            v = self.flat.setdefault(k, fp)
            self.want(v == fp, "the same call runs at stack pointer %d and at %d" % (v, fp))

