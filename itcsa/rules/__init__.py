from . import locking, threads, futures, sync, registry, pool, combine

RULES = {}
for _m in (locking, threads, futures, sync, registry, pool, combine):
    for _r in _m.RULES:
        RULES[_r.id] = _r

NOT_APPLICABLE = {
    'J02': 'no check was built: it needs the best level seen over a whole walk of an ordered map related to the job claimed, '
           'and a nested walk over workers and threads related to the notifications posted; the interpreter keeps neither '
           'relation, and the order inside a level is left to std::priority_queue, whose order it does not model',
}
