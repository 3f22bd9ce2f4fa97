"""CPU backstop for code that stops making simulator events (a loop without any tick)."""
import resource
import signal


class Hang(BaseException):
    pass


def _h(sig, frm):
    raise Hang('no simulator event within the CPU budget')


def arm(cpu_s):
    signal.signal(signal.SIGPROF, _h)
    signal.setitimer(signal.ITIMER_PROF, cpu_s)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
