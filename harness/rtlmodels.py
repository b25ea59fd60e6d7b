"""Reference models of the RTL units: what each output is in terms of the inputs of this cycle and the history since reset."""
from .models import van_der_corput


def lsz(v, w):
    for i in range(w):
        if not v >> i & 1:
            return i
    return 0


class Sobol:
    """Gray-code Sobol, first dimension: value of the k-th enabled cycle."""
    def __init__(self, w):
        self.w, self.table = w, [int(v) for v in van_der_corput(w)]
        self.reset()

    def reset(self):
        self.k, self.off = 0, 0

    @property
    def val(self):
        n = 1 << self.w
        return self.table[self.k % n] ^ self.off

    def adv(self, en):
        if en:
            self.k += 1
            if self.k % (1 << self.w) == 0:            # the register keeps its last point and starts over from there
                self.off ^= self.table[-1] ^ (1 << (self.w - 1))

    def step(self, enable):
        v = self.val
        self.adv(enable)
        return {"sobolSeq": v}


class Gray:
    def __init__(self, w):
        self.w = w
        self.reset()

    def reset(self):
        self.k = 0

    def step(self):
        v = self.k ^ (self.k >> 1)
        self.k = (self.k + 1) % (1 << self.w)
        return {"grayOutBin": v}


class Halton:
    """Digit reversal of the cycle number in the base, as an integer; bases 3 and 5 give it one cycle later."""
    def __init__(self, base, digits, late):
        self.b, self.d, self.late = base, digits, late
        self.reset()

    def reset(self):
        self.k = 0

    def step(self):
        k = self.k - self.late
        self.k += 1
        if k < 0:
            return {"out": 0}
        k %= self.b ** self.d
        v = 0
        for _ in range(self.d):
            v = v * self.b + k % self.b
            k //= self.b
        return {"out": v}


class SkewedSync:
    def __init__(self, depth):
        self.top = 2 ** depth - 1
        self.reset()

    def reset(self):
        self.held = 0

    def step(self, in0, in1):
        o = in0
        if in0 and not in1 and self.held < self.top:
            o, self.held = 0, self.held + 1
        elif in1 and not in0 and self.held > 0:
            o, self.held = 1, self.held - 1
        return {"out0": o, "out1": in1}


class SkewedSyncInt:
    """Whole numbers instead of bits: what arrives is withheld until the second stream is 1, then as much leaves as the output holds."""
    def __init__(self, depth):
        self.top = 2 ** depth - 1
        self.reset()

    def reset(self):
        self.held = 0

    def step(self, in0, in1):
        have = self.held + in0
        o = min(have, self.top) if in1 else 0
        self.held = min(have - o, self.top)
        return {"out0": o, "out1": in1}


class Uni2Bi:
    """After t cycles floor((ones + cycles)/2) of the ones and cycles before the last."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.s, self.emitted = 0, 0

    def step(self, **k):
        o = self.s // 2 - self.emitted
        self.emitted += o
        self.s += k["in"] + 1
        return {"out": o}


class Bi2Uni:
    """Emits a one whenever ones minus zeros minus emitted ones of the earlier cycles is positive."""
    def __init__(self, depth):
        self.half = 2 ** (depth - 1)
        self.reset()

    def reset(self):
        self.acc, self.ok = 0, True

    def peek(self):
        return int(self.acc > 0) if self.ok else None

    def step(self, **k):
        o = self.peek()
        if self.ok:
            self.acc += 2 * k["in"] - 1 - o
            self.ok = self.acc >= -self.half            # the counter has wrapped: nothing is claimed until reset
        return {"out": o}


class SignAbs:
    def __init__(self, depth):
        self.half = 2 ** (depth - 1)
        self.reset()

    def reset(self):
        self.acc = 0

    def step(self, value):
        s = int(self.acc < 0)
        self.acc = max(-self.half, min(self.half - 1, self.acc + 2 * value - 1))
        return {"sign": s, "abs": value ^ s}


class JKFF:
    def __init__(self):
        self.reset()

    def reset(self):
        self.q = 0

    def step(self, J, K):
        o = self.q
        self.q = (J and not o) or (not K and o)
        self.q = int(self.q)
        return {"out": o}


class Cordiv:
    """The last DEP quotients, oldest first; they start as 0,1,0,1..."""
    def __init__(self, dep):
        self.dep = dep
        self.reset()

    def reset(self):
        self.h = [i % 2 for i in range(self.dep)]

    def peek(self, randNum, dividend, divisor):
        return dividend if divisor else self.h[randNum]

    def step(self, randNum, dividend, divisor):
        q = self.peek(randNum, dividend, divisor)
        self.h = self.h[1:] + [q]
        return {"quotient": q}


class IscbdivU:
    def __init__(self, dep, sync):
        self.s, self.d = SkewedSync(sync), Cordiv(dep)

    def reset(self):
        self.s.reset()
        self.d.reset()

    def step(self, randNum, dividend, divisor):
        a = self.s.step(dividend, divisor)
        return self.d.step(randNum, a["out0"], a["out1"])


class IscbdivB:
    def __init__(self, dabs, dep, sync):
        self.a, self.b = SignAbs(dabs), SignAbs(dabs)
        self.ua, self.ub, self.div, self.bi = Bi2Uni(3), Bi2Uni(3), IscbdivU(dep, sync), Uni2Bi()
        self.reset()

    def reset(self):
        for x in (self.a, self.b, self.ua, self.ub, self.div, self.bi):
            x.reset()
        self.ok = True

    def step(self, randNum, dividend, divisor):
        if not self.ok:
            return {"quotient": None}
        a, b = self.a.step(dividend), self.b.step(divisor)
        ua, ub = self.ua.step(**{"in": a["abs"]})["out"], self.ub.step(**{"in": b["abs"]})["out"]
        if ua is None or ub is None:
            self.ok = False
            return {"quotient": None}
        q = self.div.step(randNum, ua, ub)["quotient"]
        return {"quotient": self.bi.step(**{"in": q})["out"] ^ a["sign"] ^ b["sign"]}


class Gaines:
    """Saturating counter compared with a random number; up and down requests cancel."""
    def __init__(self, depth, kind, ge=False):
        self.n, self.kind, self.ge = 2 ** depth, kind, ge
        self.reset()

    def reset(self):
        self.cnt, self.prev = self.n // 2, 0

    def step(self, randNum, dividend=0, divisor=0, **k):
        q = int(self.cnt >= randNum if self.ge else self.cnt > randNum)
        if self.kind == "div":
            up, dn, self.prev = dividend, q & divisor, 0
        elif self.kind == "divb":
            # bipolar: the product of quotient and decorrelated divisor is subtracted from the dividend, both XNOR-coded
            prod = 1 ^ (1 ^ divisor ^ self.prev) ^ (1 ^ q)
            same = 1 ^ divisor ^ dividend
            up, dn, self.prev = same & prod, (1 ^ same) & (1 ^ prod), divisor
        elif self.kind == "sqrt":
            up, dn, self.prev = k["in"], q & self.prev, q
        elif self.kind == "sqrtb":
            up, dn, self.prev = k["in"], 1 ^ q ^ self.prev, q
        if up and not dn:
            self.cnt = min(self.n - 1, self.cnt + 1)
        elif dn and not up:
            self.cnt = max(0, self.cnt - 1)
        return {"quotient": q, "out": q}


class SqrtJK:
    """Bit inserting: while the flip-flop (J: the output as unipolar stream, K: 1) is set the output is 1, else the input."""
    def __init__(self, bi=None):
        self.bi = Bi2Uni(bi) if bi else None
        self.reset()

    def reset(self):
        self.q = 0
        if self.bi:
            self.bi.reset()

    def step(self, **k):
        o = 1 if self.q else k["in"]
        j = self.bi.step(**k)["out"] if self.bi else o
        if j is None:
            self.q = None
            return {"out": None}
        if self.q is None:
            return {"out": None}
        self.q = int(j and not self.q)
        return {"out": o}


class SqrtOld:
    """Older bit inserting: while the flip-flop is set the output is the input, else 1; output ones toggle it, zeros set it."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.q = 1

    def step(self, **k):
        o = k["in"] if self.q else 1
        self.q = (1 - self.q) if o else 1
        return {"out": o}


class SqrtIS:
    """Bit inserting with the correlated divider computing v/(1+v) of the output, one cycle late (unipolar)."""
    def __init__(self, dep, bi):
        self.div, self.bi = Cordiv(dep), Bi2Uni(3) if bi else None
        self.reset()

    def reset(self):
        self.dff, self.out = 0, 0
        self.div.reset()
        if self.bi:
            self.bi.reset()

    def step(self, randNum, **k):
        if self.out is None:
            return {"out": None}
        v = self.bi.step(**k)["out"] if self.bi else self.out
        if v is None:
            self.out = None
            return {"out": None}
        num = (1 - self.dff) & v
        tr = self.div.step(randNum, num, self.dff | num)["quotient"]
        new = 1 if tr else k["in"]
        o = new if self.bi else self.out
        self.out = new
        self.dff ^= 1
        return {"out": o}


class SqrtO:
    """Output v of v = in + v*(1-v): a non-scaled adder fed with the input and the output gated by an earlier inverted output."""
    def __init__(self, dep, srdep, bi):
        self.half, self.n, self.bi = 2 ** (dep - 1), srdep, Bi2Uni(3) if bi else None
        self.reset()

    def reset(self):
        self.acc, self.h, self.ok = 0, [i % 2 for i in range(self.n)], True
        if self.bi:
            self.bi.reset()

    def step(self, randNum, **k):
        if not self.ok:
            return {"out": None}
        o = int(self.acc > 0)
        u = self.bi.step(**{"in": o})["out"] if self.bi else o
        if u is None:
            self.ok = False
            return {"out": o}
        self.acc += k["in"] + (u & self.h[randNum]) - o
        self.h = self.h[1:] + [1 - o]
        self.ok = -self.half <= self.acc < self.half
        return {"out": o}


# ---------------------------------------------------------------- multipliers, adders
class UMul:
    def __init__(self, w, bipolar):
        self.w, self.bi = w, bipolar
        self.s, self.r = Sobol(w), Sobol(w)
        self.reset()

    def reset(self):
        self.b = 0
        self.s.reset()
        self.r.reset()

    def step(self, iA, iB, loadB):
        if iA:
            o = int(self.b > self.s.val)
        else:
            o = int(self.b <= self.r.val) if self.bi else 0
        self.s.adv(iA)
        self.r.adv(not iA)
        if loadB:
            self.b = iB
        return {"oC": o}


class TMul:
    """Temporal operand: after a load of A the stream runs for A cycles, during which B is compared with the sequence."""
    def __init__(self, w, bipolar):
        self.bi, self.s = bipolar, Sobol(w)
        self.reset()

    def reset(self):
        self.a = self.b = 0
        self.stop = 1
        self.s.reset()

    def step(self, iA, iB, loadA, loadB):
        run = 1 - self.stop
        cmp_ = int(self.b > self.s.val)
        o = int(run == cmp_) if self.bi else run & cmp_
        out = {"oC": o, "stop": self.stop}
        self.s.adv(run)
        if loadA:
            self.a, self.stop = iA, 1
        elif self.a:
            self.a, self.stop = self.a - 1, 0
        else:
            self.stop = 1
        if loadB:
            self.b = iB
        return out


class GMul:
    def __init__(self, w, bipolar):
        self.bi, self.s = bipolar, Sobol(w)
        self.reset()

    def reset(self):
        self.a = self.b = 0
        self.s.reset()

    def step(self, iA, iB, loadA, loadB):
        x, y = int(self.a > self.s.val), int(self.b > self.s.val)
        self.s.adv(1)
        if loadA:
            self.a = iA
        if loadB:
            self.b = iB
        return {"oC": int(x == y) if self.bi else x & y}


class ScaledAdd:
    """At every cycle as many ones have left as whole multiples of n have arrived."""
    def __init__(self, n):
        self.n = n
        self.reset()

    def reset(self):
        self.total = self.emitted = 0

    def step(self, ones):
        self.total += ones
        o = self.total // self.n - self.emitted
        self.emitted += o
        return o


class NonScaledAdd:
    """Emits while twice the ones of earlier cycles, less offset per cycle, exceeds twice the ones emitted."""
    def __init__(self, offset, bits=10):
        self.off, self.lim = offset, 1 << bits
        self.reset()

    def reset(self):
        self.theory = self.actual = 0
        self.ok = True

    def step(self, ones):
        if not self.ok:
            return None
        o = int(self.theory > self.actual)
        self.theory += 2 * ones - self.off
        self.actual += 2 * o
        self.ok = 0 <= self.theory < self.lim and self.actual < self.lim
        return o
