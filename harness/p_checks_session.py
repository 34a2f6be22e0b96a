"""Checks decided with Session.tla: exhaustive families replayed in the pools and recorded sessions."""

import p_checks_messages
import p_secret
import p_values
from p_session import run_families, run_walks
from p_strace import run_crowds, run_traces

W = dict(cv="2.3", sv="2.3", mn=1, mx=1, set="S0")
W1 = dict(cv="2.3", sv="2.3", mn=2, mx=5, set="S1")
W22 = dict(cv="2.2", sv="2.3", mn=1, mx=1, set="S2")


def _do(chk, quick, thorough, qtraces=(), ttraces=()):
    chk.assumptions += [
        "one application thread per side, calls are atomic; the transport loses whole payloads only where stated",
        "values are abstracted to tags; their contents are decided by C09 and C13 to C19",
    ]
    fams = thorough if chk.thorough else quick
    run_families(chk, fams)
    names = [f for f, _ in fams]
    run_walks(chk, names + ["mix", "mix_open"], 12000 if chk.thorough else 1600, 40 if chk.thorough else 20)
    tr = ttraces if chk.thorough else qtraces
    if tr:
        run_traces(chk, list(tr))


def run_C03(chk):
    _do(
        chk,
        [("pipe2", 3), ("writes", 3), ("key", 3), ("host", 3), ("counts", 3), ("gcm", 3), ("falsy", 3)],
        [("pipe2", 5), ("falsy", 4), ("writes", 5), ("key", 5), ("host", 5), ("counts", 5), ("gcm", 5), ("pipe1_fine", 5), ("open_fine", 7)],
        [("gen", 24, 150, True, W), ("gen", 16, 150, False, W), ("key", 16, 120, True, W), ("gcm", 8, 100, False, W1), ("disc", 8, 100, False, W)],
        [("gen", 400, 300, True, W), ("gen", 200, 300, False, W), ("key", 200, 200, True, W), ("gcm", 80, 200, True, W1), ("disc", 100, 200, False, W)],
    )
    crowds(chk, ("queue", 2), ("pipes", 24))
    null_input(chk)
    p_values.run(chk, 20000 if chk.thorough else 500)


def crowds(chk, *kinds):
    """Sessions with very much under way at a time, recorded and validated."""
    run_crowds(chk, [(f, n, 60 if chk.thorough else 6) for f, n in kinds])


def null_input(chk):
    """Null as an input of a pipeline is an input like any other."""
    from psrpcore import ClientPowerShell, ClientRunspacePool, PipelineInputEvent, ServerPipeline, ServerRunspacePool

    for before, after in (([], []), ([1], []), ([], [2]), ([1, None], [2])):
        c, s = ClientRunspacePool(), ServerRunspacePool()
        got = []

        def pump():
            busy = True
            while busy:
                busy = False
                for a, b in ((c, s), (s, c)):
                    d = a.data_to_send()
                    while d is not None:
                        busy = True
                        b.receive_data(d)
                        d = a.data_to_send()
                    e = b.next_event()
                    while e is not None:
                        if b is s:
                            got.append(e)
                        e = b.next_event()

        c.open()
        pump()
        p = ClientPowerShell(c)
        p.add_script("x")
        p.start()
        q = ServerPipeline(s, p.pipeline_id)
        pump()
        q.start()
        got.clear()
        sent = before + [None] + after
        for v in sent:
            p.send(v)
        pump()
        seen = [getattr(e, "data", "nothing") if isinstance(e, PipelineInputEvent) else type(e).__name__ for e in got]
        chk.traces += 1
        if seen != sent:
            chk.violation("inputs %r arrived as %r" % (sent, seen))


def run_C04(chk):
    _do(
        chk,
        [("open_fine", 5), ("life", 2), ("closing", 4), ("set_1", 5), ("set_2", 5), ("set_3", 5), ("set_sec", 4), ("inj_pool", 2)],
        [("open_fine", 7), ("life", 4), ("closing", 6), ("set_1", 7), ("set_2", 7), ("set_3", 7), ("set_sec", 6), ("inj_pool", 3)],
        [("life", 24, 120, False, W), ("life", 8, 120, True, W1), ("gen", 8, 100, True, W22)],
        [("life", 400, 250, False, W), ("life", 200, 200, True, W1), ("gen", 100, 200, True, W22)],
    )
    crowds(chk, ("pipes", 12))
    p_checks_messages.opened(chk)


def run_C05(chk):
    _do(
        chk,
        [("pipe1", 4), ("pipe1_fine", 3), ("gcm", 4), ("pipe2_life", 2), ("pipe2_close", 4), ("restart", 3), ("inj_pipe", 2)],
        [("pipe1", 6), ("pipe1_fine", 5), ("gcm", 6), ("pipe2_life", 3), ("pipe2_close", 6), ("restart", 6), ("pipe2", 4), ("inj_pipe", 3)],
        [("gen", 24, 150, False, W), ("gen", 8, 150, True, W), ("gcm", 8, 100, False, W)],
        [("gen", 400, 300, False, W), ("gen", 100, 200, True, W), ("gcm", 100, 200, False, W)],
    )
    crowds(chk, ("pipes", 31))


def run_C06(chk):
    _do(
        chk,
        [("life", 2), ("pipe1", 3), ("key", 3), ("counts", 3), ("host2", 2), ("ver23_22", 4), ("key_arg", 4), ("set_sec", 4), ("disc", 3), ("key_states", 4)],
        [("life", 4), ("pipe1", 5), ("key", 4), ("counts", 4), ("host2", 4), ("ver23_22", 6), ("key_arg", 6), ("set_sec", 6), ("disc", 5), ("closing", 5), ("key_states", 5)],
        [("life", 16, 120, False, W), ("gen", 16, 150, False, W), ("key", 8, 120, False, W), ("disc", 8, 120, False, W)],
        [("life", 300, 250, False, W), ("gen", 200, 250, False, W), ("key", 100, 200, False, W), ("disc", 100, 200, False, W)],
    )


def run_C07(chk):
    _do(
        chk,
        [("counts", 4), ("counts2", 3), ("counts3", 4), ("open_fine", 4), ("disc_pend", 3)],
        [("counts", 6), ("counts2", 5), ("counts3", 6), ("open_fine", 6), ("disc_pend", 5)],
        [("counts", 24, 200, False, W), ("counts", 8, 200, True, W1), ("gen", 8, 150, False, W), ("disc", 8, 120, False, W)],
        [("counts", 400, 300, False, W), ("counts", 100, 300, True, W1), ("gen", 300, 300, False, W), ("disc", 200, 200, False, W)],
    )
    crowds(chk, ("asks", 2))


def run_C08(chk):
    _do(
        chk,
        [("host", 4), ("host2", 3), ("host3", 3), ("host_all", 4), ("key2", 3), ("disc_pend", 4), ("falsy", 3)],
        [("falsy", 4), ("host", 6), ("host2", 5), ("host3", 6), ("host_all", 4), ("key", 4), ("key2", 4), ("disc_pend", 6)],
        [("gen", 24, 150, False, W), ("gen", 8, 150, True, W), ("key", 8, 120, False, W)],
        [("gen", 300, 300, False, W), ("gen", 100, 200, True, W), ("key", 100, 200, False, W)],
    )
    crowds(chk, ("calls", 2))


def run_C10(chk):
    _do(
        chk,
        [("key", 4), ("key2", 3), ("key_states", 3), ("key_arg", 5), ("set_sec", 4)],
        [("key", 6), ("key2", 5), ("key_states", 5), ("key_arg", 7), ("set_sec", 6)],
        [("key", 24, 150, True, W), ("key", 16, 150, False, W)],
        [("key", 300, 300, True, W), ("key", 300, 250, False, W)],
    )
    p_secret.run(chk)


def run_C11(chk):
    _do(
        chk,
        [("disc", 4), ("disc_fine", 4), ("disc_pipe", 3), ("disc_pend", 4), ("inj_conn", 3)],
        [("disc", 6), ("disc_fine", 6), ("disc_pipe", 5), ("disc_pend", 6), ("inj_conn", 4)],
        [("disc", 32, 150, False, W1), ("disc", 8, 150, True, W)],
        [("disc", 400, 300, False, W1), ("disc", 100, 200, True, W)],
    )


VERS = ["ver20_23", "ver21_23", "ver22_23", "ver23_23", "ver23_20", "ver23_21", "ver23_22", "ver22_22"]
VERS += ["ver2210_23", "ver23_2301", "ver229_30", "ver110_100", "ver2301_210", "ver24_110", "ver100_24"]


def run_C12(chk):
    _do(chk, [(v, 4) for v in VERS], [(v, 7) for v in VERS])
    p_checks_messages.redirects(chk)
