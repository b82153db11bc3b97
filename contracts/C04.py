"""C04: fractional-delay accumulation: every arrival deposits exactly its windowed-sinc taps."""
from ism import *

ID = "C04"
AC = AX + "accumulate:"
FNS = [AC + n for n in ("_accumulate_rir_batch", "_get_accumulate_fn", "_accumulate_rir_batch_impl", "_get_fdl_grid", "_get_fdl_offsets", "_get_fdl_window", "_get_sinc_lut")]


def config(P, use_lut, use_compile=False, **kw):
    C = P.fn("torchrir.config:SimulationConfig")
    fdl, gran = P.int("frac_delay_length", 1), P.int("granularity", 1)
    P.assume(fdl.t % 2 == 1)
    ac = P.int("accumulate_chunk_size", 1)
    st, cfg = P.call(C, frac_delay_length=fdl, sinc_lut_granularity=gran, accumulate_chunk_size=ac, use_lut=use_lut, use_compile=use_compile, **kw)
    if st == "raise":
        raise cfg
    return cfg, fdl.t, gran.t


def case(use_lut, device, use_compile=False):
    def run(P):
        P.mod(AX + "accumulate")
        f = P.fn(AC + "_accumulate_rir_batch")
        cfg, L, G = config(P, use_lut, use_compile)
        S, M, K, N = P.int("n_src", 1), P.int("n_mic", 1), P.int("n_img", 1), P.int("nsample", 1)
        rir = P.tensor("rir", [S, M, N], device=device, frozen=False)
        before = rir.snapshot()
        smp, amp = P.tensor("sample", [S, M, K], device=device), P.tensor("amplitude", [S, M, K], device=device)
        st, y = P.call(f, rir, smp, amp, cfg)
        if st == "raise":
            return P.fail("arrivals are accumulated", repr(y))

        def spec(s, m, t):
            return before([s, m, t]) + taps_sum([K], lambda j: smp.at(s, m, j), lambda j: amp.at(s, m, j), L, G if use_lut else None, t)
        P.tensor_eq("rir[s,m,t] grows by exactly the taps of the arrivals of (s,m) at t", rir, [S, M, N], spec)
    return run


CASES = [Case("table", case(True, "cpu"), FNS), Case("direct", case(False, "cpu"), FNS), Case("table, accelerator, compiled", case(True, "cuda", True), FNS),
         Case("direct, accelerator, compiled", case(False, "cuda", True), FNS)]
