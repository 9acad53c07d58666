"""T02: the modes of the terminal, its window size and echo."""

import termios
import tty

from ..core import *
from ..pymodel import Base
from ..registry import Check
from ..run import Job, Monitor
from .fds import ASSUME

bit = Base.bit
FLAGS = ("iflag", "oflag", "cflag", "lflag", "ispeed", "ospeed")
ONE = {"cooked": {}, "untouched": {},
       "cbreak": {3: termios.ICANON | termios.ECHO},
       "raw": {1: termios.OPOST, 3: termios.ICANON | termios.ECHO | termios.ISIG | termios.IEXTEN}}
# flags that belong to the mode and may change in any way
LOOSE = {"cooked": {}, "untouched": {}, "cbreak": {0: termios.ICRNL}, "raw": {0: ~0, 1: ~0, 2: ~0, 3: termios.ECHONL}}


def word(v):
    return [bit(v, 1 << i) for i in range(32)] if v.tag == "k" or v.tag == "sym" and v.parts[0] in ("bits", "ttyattr") else None


NAMES = {0: "IGNBRK BRKINT IGNPAR PARMRK INPCK ISTRIP INLCR IGNCR ICRNL IXON IXANY IXOFF IMAXBEL IUTF8", 1: "OPOST ONLCR OCRNL ONOCR ONLRET OFILL OFDEL",
         3: "ISIG ICANON ECHO ECHOE ECHOK ECHONL NOFLSH TOSTOP ECHOCTL ECHOPRT ECHOKE FLUSHO PENDIN IEXTEN"}


def named(i, mask):
    return next((n for n in NAMES.get(i, "").split() if getattr(termios, n, None) == mask), f"{FLAGS[i]} {mask:#x}")


class Modes(Monitor):
    "Typestate of the terminal's attributes and window size at launch, and around Prompt.echo."
    name = "T02"

    def on_mark(self, I, st, name, args, **_):
        f = getattr(self, "mark_" + name.replace("-", "_"), None)
        if f:
            f(I, st, *args)

    def mark_asked(self, I, st, mode, rows, cols, echo):
        self.put(st, "asked", Tup([mode, rows, cols, echo]))

    def on_opened(self, I, st, fd, what, node, peer=None):
        if what == "pty_parent":
            self.put(st, "pty", Tup([fd, peer]))

    def ours(self, I, st, fd):
        p = self.get(st, "pty")
        return p is None or any(I.norm(fd, st) is x for x in p.parts[0])

    def on_ext(self, I, st, name, args=(), kw=None, **_):
        if name in ("termios.tcsetattr", "tty.setraw", "tty.setcbreak", "termios.tcsetwinsize", "os.set_terminal_size"):
            if not self.ours(I, st, args[0]):
                self.bad(I, st, "other-terminal", f"{name} is applied to {show(args[0])}, which is not the command's terminal")
        if name == "termios.tcsetattr" and self.get(st, "steady") is not None:
            w = I.norm(args[1], st)
            iv = I.enum_int(w) if w.tag in ("enum", "py") else kval(w) if is_k(w, int) else None
            if iv == termios.TCSAFLUSH:
                self.bad(I, st, "discards", "setting echo discards input the co-process has not read yet")
        size = None
        if name == "fcntl.ioctl" and len(args) >= 3:
            op = I.norm(args[1], st)
            v = I.norm(args[2], st)
            iv = I.enum_int(op) if op.tag in ("enum", "py") else kval(op) if is_k(op, int) else None
            if iv == termios.TIOCSWINSZ:
                if v.tag == "sym" and v.parts[0] == "call" and kval(v.parts[1]) in ("struct.pack", "_struct.pack") and len(v.parts) >= 5:
                    size = [I.norm(x, st) for x in v.parts[3:5]]
                elif is_k(v, bytes) and len(kval(v)) == 8:
                    import struct
                    size = [K(x) for x in struct.unpack("HHHH", kval(v))[:2]]
                else:
                    I.note("window size of unknown form")
                    size = [None, None]
        elif name == "termios.tcsetwinsize":
            v = I.norm(args[1], st)
            size = [I.norm(x, st) for x in v.parts[0]] if v.tag == "tup" else [None, None]
        if size is not None:
            if not self.ours(I, st, args[0]):
                self.bad(I, st, "other-terminal", f"the window size is set on {show(args[0])}, which is not the command's terminal")
            self.put(st, "size", Tup([x if x is not None else NONE for x in size]))
        if name == "os.ioctl":
            I.note("unknown ioctl")

    def on_fault(self, I, st, name, **_):
        self.put(st, "fault", K(name))

    def compare(self, I, st, old, new, must, loose, rule, msg, echo=None):
        "`must`: word -> flags that have to be clear; `loose`: flags that may change; everything else has to stay as it was."
        for i in range(6):
            a, b = old[i], I.norm(new[i], st)
            if i >= 4 or i == 2:
                if a is not b and not loose.get(i):
                    self.bad(I, st, rule, f"{msg} {FLAGS[i]}", construct=FLAGS[i])
                continue
            wa, wb = word(a), word(b)
            if wb is None:
                if not loose.get(i):
                    self.bad(I, st, rule, f"{msg} {FLAGS[i]}", construct=FLAGS[i])
                continue
            for n in range(32):
                mask = 1 << n
                x, y = self.value(I, st, wa[n] if wa else ("same", a), mask), self.value(I, st, wb[n], mask)
                if must.get(i, 0) & mask:
                    if y is not False:
                        self.bad(I, st, "mode", f"{kval(self.get(st, 'asked').parts[0][0])}: the flag {named(i, mask)} is not clear", construct=named(i, mask))
                elif i == 3 and mask == termios.ECHO and echo is not None:
                    if y is not echo:
                        self.bad(I, st, "echo", f"echo is {'on' if y is True else 'off' if y is False else 'unchanged'} although it was turned {'on' if echo else 'off'}", construct="ECHO")
                elif x != y and not loose.get(i, 0) & mask:
                    self.bad(I, st, rule, f"{msg} the flag {named(i, mask)}", construct=named(i, mask))
        if not loose.get(6, 0):
            ca = old[6].parts[0]
            cb = I.models.known_items(I.norm(new[6], st), st)
            for n, x in enumerate(ca):
                if cb is not None and (n >= len(cb) or I.norm(cb[n], st) is not I.norm(x, st)):
                    self.bad(I, st, rule, f"{msg} a control character", construct="cc")
                    break

    @staticmethod
    def value(I, st, b, mask):
        if not isinstance(b, tuple):
            return b
        how, base = b
        w = Sym("bits", base, K(mask), K(0), K(0), ty=Py(int), exact=True)
        t = st.fact(w).truth
        if t is None:
            return b
        return t if how == "same" else not t

    def initial(self):
        return [Sym("ttyattr", K(i), ty=Py(int), exact=True) for i in range(6)] + [
            Tup([Sym("cc", K("tty"), K(i), ty=Py(bytes), exact=True, nonempty=True) for i in range(32)])]

    def on_exec(self, I, st, args, kw, node):
        a = self.get(st, "asked")
        if a is None or self.get(st, "pty") is None:
            return
        mode, rows, cols, echo = a.parts[0]
        mode = kval(mode)
        now = I.models.tty_attrs(st).parts[0]
        loose = dict(LOOSE[mode])
        if mode in ("raw", "cbreak"):
            loose[6] = loose[2] = 1
        self.compare(I, st, self.initial(), now, ONE[mode], loose, "changed", f"{mode}() changes", echo=False if echo is FALSE and mode == "cooked" else None)
        size = self.get(st, "size")
        want = [I.norm(rows, st), I.norm(cols, st)]
        if want == [K(0), K(0)]:
            if size is not None:
                self.bad(I, st, "size", "the window size is set although none was asked for", construct="window size")
        elif size is None:
            if self.get(st, "fault") is None:
                self.bad(I, st, "size", "the window size asked for is not set before the launch", construct="window size")
        else:
            for x, y, n in zip(size.parts[0], want, ("rows", "columns")):
                if x is not NONE and x is not y and I.eq(x, y, st) is not TRUE:
                    self.bad(I, st, "size", f"the window's {n} are {show(x)} instead of {show(y)}", construct="window size")

    # Prompt.echo
    def mark_echo_is(self, I, st, v):
        v = I.norm(v, st)
        now = I.models.tty_attrs(st).parts[0]
        w = word(I.norm(now[3], st))
        for b, s in I.truth(v, st.fork()):
            if w is None or self.value(I, s, w[termios.ECHO.bit_length() - 1], termios.ECHO) is not b:
                self.bad(I, s, "echo-read", "Prompt.echo is not the terminal's echo flag", construct="Prompt.echo")

    def mark_snap(self, I, st):
        self.put(st, "steady", I.models.tty_attrs(st))

    def mark_echo_set(self, I, st, v):
        b = kval(I.norm(v, st))
        self.compare(I, st, self.get(st, "steady").parts[0], I.models.tty_attrs(st).parts[0], {}, {}, "changed", "setting echo changes", echo=b)

    def mark_unreached(self, I, st, why):
        self.bad(I, st, "no-terminal", kval(why), construct="Prompt.echo", where="without a terminal")


PRE = '''
from shellous import sh, cooked, cbreak, raw
import asyncio
'''

LAUNCH = PRE + '''
async def main():
    mode = __choose__("untouched", "cooked", "cbreak", "raw", "called")
    rows, cols = __choose__((0, 0), (24, 80), (0, 80), (24, 0), (__sym__("rows", int), 80), (24, __sym__("cols", int)))
    echo = __choose__(True, False)
    if mode == "untouched":
        __mark__("asked", "untouched", 0, 0, True)
        pty = True
    elif mode == "cooked":
        __mark__("asked", "cooked", rows, cols, echo)
        pty = cooked(rows=rows, cols=cols, echo=echo)
    elif mode == "cbreak":
        __mark__("asked", "cbreak", rows, cols, False)
        pty = cbreak(rows=rows, cols=cols)
    elif mode == "raw":
        __mark__("asked", "raw", rows, cols, False)
        pty = raw(rows=rows, cols=cols)
    else:
        __mark__("asked", "cooked", 0, 0, True)
        pty = cooked()
    cmd = sh("/bin/prog").set(pty=pty)
    how = __choose__("await", "with", "prompt")
    if how == "await":
        await cmd
    elif how == "with":
        async with cmd as run:
            await __body__("body")
    else:
        async with cmd.prompt() as cli:
            await __body__("body")
'''

TWICE = PRE + '''
async def main():
    adapter = __choose__("cooked", "raw", "cbreak")
    rows = __choose__(24, 60)
    pty = cooked(rows, 80, echo=False) if adapter == "cooked" else raw(rows, 80) if adapter == "raw" else cbreak(rows, 80)
    __mark__("asked", adapter, rows, 80, False)
    await sh("/bin/prog").set(pty=pty)
'''

ECHO = PRE + '''
async def main():
    pty = __choose__(True, "cooked", "quiet")
    if pty == "cooked": pty = cooked()
    elif pty == "quiet": pty = cooked(echo=False)
    async with sh("/bin/prog").set(pty=pty).prompt() as cli:
        __mark__("echo-is", cli.echo)
        for value in (__choose__(True, False), __choose__(True, False)):
            __mark__("snap")
            cli.echo = value
            __mark__("echo-set", value)
            __mark__("echo-is", cli.echo)
'''

NOTTY = PRE + '''
async def main():
    cmd = sh("/bin/prog")
    if __choose__(True, False):
        cmd = sh("/bin/first") | sh("/bin/prog")
    async with cmd.prompt() as cli:
        if cli.echo is not False:
            __mark__("unreached", "Prompt.echo is not False although there is no terminal")
        value = __choose__(True, False)
        try:
            cli.echo = value
        except RuntimeError:
            __mark__("refused")
        else:
            __mark__("unreached", "setting Prompt.echo without a terminal raises no error")
'''


def t02_jobs(tier):
    from .prompt import STUBS
    M = [Modes()]
    kw = dict(coarse=True, terminal=True)
    js = [Job("launch", LAUNCH, M, expect=("exec", "opened", "ext:tty.setraw", "ext:tty.setcbreak", "ext:termios.tcsetattr"), **kw),
          Job("size-fails", TWICE, M, raises={"fcntl.ioctl": [OSError], "termios.tcsetwinsize": [OSError]}, faults=1, expect=("exec", "opened"), **kw),
          Job("echo", ECHO, M, expect=("mark:echo-set", "ext:termios.tcsetattr"), **kw),
          Job("no-terminal", NOTTY, M, expect=("mark:refused",), **kw)]
    if tier == "thorough":
        js += [Job("launch-traced", LAUNCH, M, trace="all", cancels=1, expect=("exec", "opened"), **kw),
               Job("echo-cancel", ECHO, M, cancels=1, trace="prompt", expect=("mark:echo-set",), **kw),
               Job("launch-darwin", LAUNCH, M, platform="darwin", expect=("exec", "opened"), **kw)]
    return js


CHECKS = {"T02": Check("The terminal is in the mode asked for",
                       "bit-level typestate of the terminal's attribute words and of its window size at launch, compared with the mode asked for and with the words it started with; Prompt.echo against the ECHO flag",
                       t02_jobs, "cooked, cbreak, raw and no adapter, zero and non-zero rows and columns, echo on and off, awaited, entered and prompted; Prompt.echo read and set twice, with and without a terminal; every flag of the four words is tracked separately.",
                       ASSUME + ("tty.setraw and tty.setcbreak clear the flags the documentation names.",))}
