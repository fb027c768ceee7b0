"""C programs around the generated inference: histories of calls, dirty contexts, observed batches."""
from __future__ import annotations

import contextlib
import io

import os
import shutil
import subprocess
import tempfile
from pathlib import Path

import numpy as np

from acv_run import CFLAGS, dataset_of, encode

CALLS = r"""
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <math.h>
#include <pthread.h>
#include "test_dataset.h"
#include "inference.h"
#define T %(T)s
/* one call: thread, context, input, what the context holds before: 'k'ept, 'n'an, 'h'uge, 'z'ero */
static const struct { int th, cx, in; char fill; } calls[] = {%(calls)s};
enum { NC = sizeof calls / sizeof *calls, TH = %(threads)d };
static T *ins[NC], *outs[NC];
static inference_t *ctx[8];
static void fill(inference_t *c, char how) {
    T v = how == 'n' ? (T)NAN : how == 'h' ? (T)-3e30 : (T)0;
    if (how == 'k') return;
    if (how == 'z') { memset(c, 0, sizeof *c); return; }
    for (size_t i = 0; i < sizeof *c / sizeof(T); ++i) ((T *)c)[i] = v;
}
static pthread_barrier_t bar;
/* the writable memory of the program: what every thread shares */
extern unsigned char __data_start[], _end[];
__attribute__((noinline, no_sanitize("address", "undefined")))
static size_t shared(unsigned char *old, int cmp) {
    volatile unsigned char *m = __data_start;
    size_t n = (uintptr_t)_end - (uintptr_t)__data_start, bad = 0;
    for (size_t i = 0; i < n; ++i) if (cmp) bad += old[i] != m[i]; else old[i] = m[i];
    return bad;
}
/* one call in a context of its own writes there and to its results alone */
static int foot(void) {
    unsigned char *old = malloc((uintptr_t)_end - (uintptr_t)__data_start);
    T *in = malloc(nn_input_size * sizeof(T)), *out = malloc(nn_output_size * sizeof(T));
    size_t bad = 0;
    for (int r = 0; r < 2 && r < NC; ++r) {
        inference_t *c = aligned_alloc(_Alignof(inference_t), sizeof *c);
        memset(c, 0, sizeof *c);
        memcpy(in, nn_test_inputs[calls[r].in], nn_input_size * sizeof(T));
        shared(old, 0);
        inference(c, out, in);
        bad += shared(old, 1);
        free(c);
    }
    free(old), free(in), free(out);
    if (bad) printf("writes %%zu bytes of shared memory\n", bad);
    return bad != 0;
}
static void *work(void *p) {
    int me = (int)(long)p;
    pthread_barrier_wait(&bar);
    for (int n = 0; n < NC; ++n) {
        if (calls[n].th != me) continue;
        ins[n] = malloc(nn_input_size * sizeof(T)), outs[n] = malloc(nn_output_size * sizeof(T));
        memcpy(ins[n], nn_test_inputs[calls[n].in], nn_input_size * sizeof(T));
        for (int k = 0; k < nn_output_size; ++k) outs[n][k] = (T)-7;
        fill(ctx[calls[n].cx], calls[n].fill);
        inference(ctx[calls[n].cx], outs[n], ins[n]);
    }
    return 0;
}
int main(void) {
    for (int i = 0; i < 8; ++i) {
        ctx[i] = aligned_alloc(_Alignof(inference_t), sizeof **ctx);
        memset(ctx[i], 0, sizeof **ctx);
    }
    if (foot()) return 3;
    pthread_t t[TH];
    pthread_barrier_init(&bar, 0, TH);
    for (long i = 0; i < TH; ++i) pthread_create(&t[i], 0, work, (void *)i);
    for (int i = 0; i < TH; ++i) pthread_join(t[i], 0);
    for (int n = 0; n < NC; ++n) {
        printf("%%d ", memcmp(ins[n], nn_test_inputs[calls[n].in], nn_input_size * sizeof(T)) != 0);
        for (int k = 0; k < nn_output_size; ++k) printf("%%a ", (double)outs[n][k]);
        printf("\n");
        free(ins[n]), free(outs[n]);
    }
    for (int i = 0; i < 8; ++i) free(ctx[i]);
    return 0;
}
"""

BATCH = r"""
#include <stdio.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include "test_dataset.h"
#include "inference.h"
#define T %(T)s
int __real_inference(inference_t *c, T *p, T *x);
static atomic_int clock_;
static struct { int kind, ctx, out, in; } log_[4 * (nb_samples + 40)];
static long where(T *p, T *b, int size) { return (p - b) %% size ? -1 : (p - b) / size; }
static T *first;
static void note(int kind, inference_t *c, T *p, T *x) {
    int n = atomic_fetch_add(&clock_, 1);
    if (n >= 4 * (nb_samples + 40)) return;
    log_[n].kind = kind; log_[n].ctx = (int)(c - Context); 
    log_[n].in = (int)where(x, &nn_test_inputs[0][0], nn_input_size);
    log_[n].out = (int)where(p, first, nn_output_size);
}
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
int __wrap_inference(inference_t *c, T *p, T *x) {
    pthread_mutex_lock(&m);
    /* rows of the predictions are told by their distance to the row of the first sample */
    if (!first) first = p - (where(x, &nn_test_inputs[0][0], nn_input_size)) * nn_output_size;
    note(0, c, p, x);
    pthread_mutex_unlock(&m);
    if (%(slow)d) usleep(((unsigned)(x - &nn_test_inputs[0][0]) * 7919u) %% 300);
    int r = __real_inference(c, p, x);
    pthread_mutex_lock(&m); note(1, c, p, x); pthread_mutex_unlock(&m);
    return r;
}
__attribute__((destructor)) static void dump(void) {
    FILE *f = fopen("events.txt", "w");
    for (int n = 0; n < clock_; ++n) fprintf(f, "%%d %%d %%d %%d\n", log_[n].kind, log_[n].ctx, log_[n].in, log_[n].out);
    fclose(f);
}
"""


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    s.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return s


def generate(d: Path, model, case, dtype=np.float32, **kw):
    """Generate the code of a model into d/c; (directory, "ok") or (None, status, message)."""
    import acetone_nnet as A
    try:
        with quiet():
            g = A.CodeGenerator(file=model, function_name="net_exe", nb_tests=len(case["samples"]),
                                test_dataset=dataset_of(case, dtype), **kw)
            g.generate_c_files(str(d / "c"))
        return d / "c", "ok", ""
    except Exception as e:  # noqa: BLE001
        return None, "generate", f"{type(e).__name__}: {e}"[:400]


def sources(cd: Path) -> list[str]:
    return sorted(p.name for p in cd.glob("*.c") if p.name != "main.c")


def build(cd: Path, name: str, text: str, srcs: list[str], extra=(), timeout=60) -> tuple[str, str]:
    (cd / f"{name}.c").write_text(text)
    p = subprocess.run(["gcc", *CFLAGS, *extra, "-o", name, f"{name}.c", *srcs, "-lm", "-lpthread"], cwd=cd,
                       capture_output=True, text=True, timeout=timeout)
    return ("ok", "") if p.returncode == 0 else ("compile", p.stderr[-600:])


def execute(cd: Path, name: str, *args, timeout=60, env=None) -> tuple[str, str, str]:
    p = subprocess.run([f"./{name}", *args], cwd=cd, capture_output=True, text=True, timeout=timeout, errors="replace",
                       env={**os.environ, **(env or {})})
    return ("ok" if p.returncode == 0 else "run"), p.stdout, (p.stderr or f"rc={p.returncode}")[-900:]


def call_histories(model, case, rng, *, calls: int, threads: int, ctype="float", extra=(), fills="knhz", **kw) -> list[dict]:
    """Channels call1..callN: what the n-th call on each sample answers, in one random history of calls."""
    n = len(case["samples"])
    seq = [(s, c) for s in range(n) for c in range(calls)]
    rng.shuffle(seq)
    plan, counts = [], {}
    for s, _ in seq:
        th = rng.randrange(threads)
        # a context belongs to one thread, and serves several inputs in turn
        cx = th + threads * rng.randrange(max(1, 8 // threads))
        counts[s] = counts.get(s, 0) + 1
        plan.append((th, cx, s, rng.choice(fills), counts[s]))
    names = [f"call{c + 1}" for c in range(calls)]

    def fail(st, msg):
        return [{"name": x, "status": st, "msg": msg, "lay": "as_is", "out": [[]] * n} for x in names]
    d = Path(tempfile.mkdtemp(prefix="acv-run-", dir="/tmp"))
    try:
        cd, st, msg = generate(d, model, case, np.float64 if ctype == "double" else np.float32, **kw)
        if cd is None:
            return fail(st, msg)
        text = CALLS % {"T": ctype, "threads": threads,
                        "calls": ", ".join(f"{{{t}, {c}, {s}, '{f}'}}" for t, c, s, f, _ in plan)}
        st, msg = build(cd, "calls", text, sources(cd), extra)
        if st != "ok":
            return fail(st, msg)
        st, out, err = execute(cd, "calls")
        if st != "ok":
            return fail("shared-written" if out.startswith("writes ") else st, out[:100] + err)
        res = [[[] for _ in range(n)] for _ in range(calls)]
        for line, (_, _, s, f, k) in zip(out.splitlines(), plan):
            w = line.split(" ", 1)
            if w[0] != "0":
                return fail("input-modified", f"sample {s} call {k}")
            res[k - 1][s] = encode(w[1], case["sc"])
        return [{"name": x, "status": "ok", "msg": str([p[:4] for p in plan if p[4] == i + 1])[:300], "lay": "as_is", "out": res[i]}
                for i, x in enumerate(names)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def batch_run(model, case, *, ctype="float", slow=False, **kw) -> dict:
    """Run the generated program with threads; its calls of the inference and its output."""
    n = len(case["samples"])
    d = Path(tempfile.mkdtemp(prefix="acv-run-", dir="/tmp"))
    try:
        cd, st, msg = generate(d, model, case, np.float64 if ctype == "double" else np.float32, **kw)
        if cd is None:
            return {"status": st, "msg": msg, "events": [], "out": [[]] * n, "lines": 0}
        st, msg = build(cd, "wrapb", BATCH % {"T": ctype, "slow": int(slow)}, sources(cd) + ["main.c"], ["-fopenmp", "-Wl,--wrap=inference"])
        if st != "ok":
            return {"status": st, "msg": msg, "events": [], "out": [[]] * n, "lines": 0}
        st, _, err = execute(cd, "wrapb", "output_c.txt", env={"OMP_DYNAMIC": "false"})
        if st != "ok":
            return {"status": st, "msg": err, "events": [], "out": [[]] * n, "lines": 0}
        ev = [[int(x) for x in l.split()] for l in (cd / "events.txt").read_text().splitlines()]
        lines = [l for l in (cd / "output_c.txt").read_text().splitlines() if l.strip()]
        return {"status": "ok", "msg": "", "lines": len(lines), "out": [encode(l, case["sc"]) for l in lines],
                "events": [{"k": ["begin", "end"][e[0]], "ctx": e[1], "in": e[2], "out": e[3]} for e in ev]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
