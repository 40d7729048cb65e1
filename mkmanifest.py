"""Writes MANIFEST.json from the table below (run by hand when a claim changes)."""
import json
TECH = 'contract-based deductive verification of the compiled MIR (contracts per function, z3), failed obligations replayed on the real crate'
NOTE = {
    'C01': 'Observer contract plus every operator lockstep-proved; scripts with ill-formed sources replayed on the real crate as bounded validation.',
    'C02': 'Every single-source operator and creation function is proved equal to its contract machine for all inputs, event by event, over an inductive invariant found by Houdini over a fixed template.',
    'C03': 'Every combining operator is proved equal to its contract machine for every sequential order of events; variadic operators for 1 and 2 further inputs (3 in the thorough tier where it is slow).',
    'C04': 'Error payloads are traced through every operator by the same proofs; retry, retry_when, on_error_resume_next, materialize, dematerialize have contract machines.',
    'C05': 'No operator unsubscribes its subscriber, and every operator keeps its upstream closed once its subscriber is.',
    'C06': 'Upstream obligations of every operator: whatever ends the subscription, every observer made for it is closed when control returns.',
    'C07': 'No user code, upstream or downstream is ever called with a lock held, no lock is taken twice, no loop spins on an ended subscription.',
    'C10': 'Subject, BehaviorSubject, ReplaySubject, AsyncSubject: every push, the hand-over to a late subscriber and every arrival proved step by step in every state the others can leave, with lists and histories of any length, over the contract of Subject, itself proved for any number of observers.',
    'C13': 'publish, ref_count, replay over the contracts of Subject and ReplaySubject: all states of the connection enumerated to a fixpoint, every hook call and source event judged in each, including a source that acts while it is subscribed; the hooks also with other threads connecting and disconnecting in between. The race between the last leaver and a new first subscriber is judged per step only.',
    'C08': 'Queue: every change of the queue is made in one locked region, post appends and wakes, the worker takes from the front one at a time only after seeing no stop in that region and sleeps only on an empty unstopped queue; for any number of posters. Schedules of the real code as bounded validation.',
    'C11': 'StreamController and Observer proved for any number of threads by rely/guarantee: the last input to complete, and only one, completes downstream. merge, flat_map, zip, take and amb: their own shared state (ticket, queues, winner) proved for any number of inputs on other threads, over ghost invariants; concat and their sequential behaviour by the lockstep proofs. Schedules of the real code as bounded validation.',
    'C12': 'Subject, BehaviorSubject and ReplaySubject proved for any number of threads by rely/guarantee; schedules of the real code as bounded validation.',
    'C19': 'Observer and FunctionWrapper proved for any number of threads by rely/guarantee: at most one terminal, nothing started after it returned. Pipelines validated by bounded schedules of the real code.',
    'C09': 'observe_on and subscribe_on proved over the contract of a scheduler: every event posts exactly one task to the one scheduler made for the subscription, the task delivers exactly that event however late it runs, nothing after the end; the queue and the schedulers are proved against that contract (C08).',
    'C15': 'interval, timer, timeout, debounce, observe_on, subscribe_on: every loop leaves within one period of the end, every scheduler is stopped, every timer ends with its next tick, in any round of the loop; queue and schedulers proved. Computation is taken to cost no time.',
    'C16': 'interval, timer, timeout, debounce, delay proved with a ghost clock that moves only in sleep (computation takes no time); sample as in C03. Schedules with virtual time on the real code as bounded validation.',
    'C18': 'Every path of next, error, complete and poll is executed with arbitrary values found behind each lock; the recorded critical sections and wakes are composed in every order the locks allow, with polls without end (finite state, explored to a fixed point): never ready early, the right result, nothing ends pending and unwoken, no deadlock.',
    'C14': 'No subscription writes memory created outside it; resubscription scripts and schedules of the real code as bounded validation.',
    'C17': 'After the end no ownership cycle is left through any operator, no finalizer is kept.',
}
LEVEL = {}
NA = {}
m = {
    'version': 1,
    'setup_cmd': 'python3-vt -m rxv.build',
    'checks': [{'property': p, 'quick_cmd': 'python3-vt -m rxv.check %s quick' % p, 'thorough_cmd': 'python3-vt -m rxv.check %s thorough' % p,
                'technique': TECH, 'level': LEVEL.get(p, 'proof'), 'level_note': NOTE[p]} for p in sorted(NOTE)],
    'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
