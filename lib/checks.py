"""One function per property."""

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@check("C07")
def c07(c):
    c.validate("tv_address", c.record())


@check("C08")
def c08(c):
    c.validate("tv_address", c.record())


@check("C09")
def c09(c):
    c.validate("tv_address", c.record())


def hd(pid):
    @check(pid)
    def f(c):
        c.validate("tv_hd", c.record())


for _p in ("C01", "C02", "C03", "C04", "C05", "C31", "C32"):
    hd(_p)


def sig(pid):
    @check(pid)
    def f(c):
        c.validate("tv_sig", c.record())


for _p in ("C10", "C11", "C12", "C14"):
    sig(_p)


@check("C13")
def c13(c):
    c.validate("tv_sig", c.record())
    # totality of the other decoders: the codes for panics, hangs and crashes only
    c.validate("tv_hd", c.record("C05") + c.record("C31"), only=(-1,))
    c.validate("tv_address", c.record("C09"), only=(-1, -21, -31, -41))
    c.validate("tv_bitset", c.record("C17"), only=(-1, -4))
    c.validate("tv_words", c.record("C13words"), only=(-1, -5, -10, -20))


def bitset(pid, ignore):
    @check(pid)
    def f(c):
        c.tlc("bitset_small" if c.thorough() else "bitset_tiny")
        c.quint_test("bitset.qnt", "bitset_layout")
        fs = c.behaviours("bitset.qnt", "bitset256", c.n(32, 400), c.n(60, 100), invariant="inv")
        c.count_itf(fs)
        c.replay("bitset", fs)
        c.validate("tv_bitset", c.record(), ignore=ignore)


bitset("C16", (-1, -2, -3, -4, -5, -6, -13, -14, -20, -21))
bitset("C17", (-11, -12, -24, -25, -26, -30, -31, -32, -33))


@check("C18")
def c18(c):
    c.quint_test("words.qnt", "words")
    c.validate("tv_words", c.record())


@check("C19")
def c19(c):
    c.quint_test("words.qnt", "words")
    c.validate("tv_words", c.record())


@check("C15")
def c15(c):
    c.tlc("registry_small")
    fs = c.behaviours("registry.qnt", "registry_full", c.n(64, 600), c.n(24, 40), invariant="inv")
    c.count_itf(fs)
    c.replay("registry", fs, one_per_process=True)    # the registry is global to the process


@check("C06")
def c06(c):
    c.tlc("lifecycle_small", workers=8)
    c.reference("tv_hd", c.record(explore=False))     # the reading of the terms
    fs = c.behaviours("lifecycle.qnt", "lifecycle_full", c.n(64, 1200), c.n(80, 140), invariant="inv")
    c.count_itf(fs)
    c.replay("lifecycle", fs)


@check("C20")
def c20(c):
    c.tlc("facade_small", workers=8)
    c.reference("tv_hd", c.record("C06", explore=False))     # the reading of the terms
    fs = c.behaviours("facade.qnt", "facade_full", c.n(64, 1200), c.n(80, 140), invariant="inv")
    c.count_itf(fs)
    c.replay("facade", fs)
    c.validate("tv_words", c.record(), ignore=(-50,))     # ambiguous phrases are C18's known finding
    c.validate("tv_hd", c.record("C20keys"))
    c.validate("tv_sig", c.record("C20sigs"))


@check("C21")
def c21(c):
    c.tlc("concurrent_small", workers=8)
    # goroutines sharing objects
    fs = c.behaviours("concurrent.qnt", "concurrent_full", c.n(48, 480), c.n(50, 100), invariant="inv")
    c.count_itf(fs)
    c.replay("concurrent", fs, race=True, nproc=3)
    # goroutines on objects of their own
    own = []
    for spec, main, n in (("lifecycle.qnt", "lifecycle_full", 16), ("facade.qnt", "facade_full", 16), ("bitset.qnt", "bitset256", 8)):
        own += c.behaviours(spec, main, c.n(n, 10 * n), 50)

    def model(f):
        return [m for m in ("lifecycle", "facade", "bitset") if "mbt_" + m in f][0]
    c.replay("own", own, race=True, nproc=c.n(4, 16), alone=model)
    # recorded calls among other goroutines and alone
    for g in ("address", "sig", "hd", "words", "bitset"):
        c.validate("tv_conc", c.record("C21", race=True, env={"VERIF_GROUP": g}))


# ---- the packages that need the decimal library (built with the stand-in under shim/) ----

def num(pid, module):
    @check(pid)
    def f(c):
        c.validate(module, c.record(which="numeric"))


num("C22", "tv_num")
num("C23", "tv_num")


num("C24", "tv_eai")


def histories(c, n=24):
    fs = c.behaviours("account.qnt", "account_full", c.n(n, 40 * n), c.n(60, 150), invariant="inv")
    c.count_itf(fs)
    c.replay("account", fs, which="numeric")


def numhist(pid, module, n):
    @check(pid)
    def f(c):
        histories(c, n)
        c.validate(module, c.record(which="numeric"))


numhist("C25", "tv_eai", 64)
numhist("C26", "tv_eai", 64)


@check("C27")
def c27(c):
    c.quint_test("pricecurve.qnt", "pricecurve")      # the published constants are the powers of two they claim to be
    c.validate("tv_price", c.record(which="numeric"))


numhist("C28", "tv_text", 16)
numhist("C29", "tv_text", 16)


@check("C30")
def c30(c):
    histories(c, 16)
    c.validate("tv_wire", c.record())
    c.validate("tv_wire", c.record(which="numeric"))


@check("C33")
def c33(c):
    env = {"VERIF_WASM": c.build_wasm()}
    c.reference("tv_hd", c.record("C06", explore=False))     # the reading of the terms
    fs = c.behaviours("facade.qnt", "facade_full", c.n(32, 640), c.n(60, 120), invariant="inv")
    c.count_itf(fs)
    c.replay("facade", fs, env=env)
    fs = c.behaviours("wasm.qnt", "wasm", c.n(64, 1200), c.n(60, 120), invariant="inv")
    c.count_itf(fs)
    c.replay("wasm", fs, env=env)


@check("C34")
def c34(c):
    c.quint_test("crc.qnt", "crc")     # what the checksum is bound to detect
    c.validate("tv_crc", c.record())


num("C35", "tv_text")


@check("C36")
def c36(c):
    c.quint_test("pricecurve.qnt", "pricecurve")
    c.validate("tv_price", c.record(which="numeric"))


@check("C37")
def c37(c):
    c.validate("tv_err", c.record())
    c.validate("tv_err", c.record(which="numeric"))


@check("C38")
def c38(c):
    c.quint_test("json.qnt", "json")
    recs = c.record()
    recs += c.record(which="numeric")
    c.validate("tv_json", recs)
