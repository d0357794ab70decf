"""What each check runs."""
import random
import vlib, fam, seqfam, purefam, agree, scen, tenfam, life, design, races, audfam, hammer, connfam, bootfam, pagefam, bulkfam
from fam import *
from seqfam import Fam, part

ASSUME = [
    'Redis, Redis Cluster and MongoDB are played by in-process protocol servers (harness/drv/fakeredis.go, fakemongo.go) that execute the real Lua scripts and commands',
    'OpenTelemetry is replaced by recording stand-ins (stubs/)',
    'the clock is the repository\'s own dtime provider, set by the driver',
]

A1, A2, A3, B1, B2 = ('a', '1'), ('a', '2'), ('a', '3'), ('b', '1'), ('b', '2')
RESTART_ = RESTART

# --------------------------------------------------------------- alphabets
LEASE = [add(m('a', '1', score=3)), add(m('a', '2', score=5)), add(m('a', '3', score=3), m('b', '1', score=1)), add(m('a', '1', score=9)),
         pull('a', 1), pull('a', 2, dl=3), pull('a', 5, dl=0), pull('a', 1, min=4), pull('b', 3, dl=1), pull('a', 3, max=4, dl=HUGE),
         ack('a', '1'), ack('a', '1', lock=2), ack('a', '2', score=2), ack('a', '3', lock=1, score=6), ack('b', '1', sub=1),
         nack('a', '1'), nack('a', '2', lock=1), nack('a', '2', lock=2, score=4), nack('a', '3', score=8), nack('b', '1', lock=3),
         rem('a', '1'), rem('a', '2', '3'), adv(1), adv(2), TIMEOUT, UNLOCK, RESTART]
LEASE_S = [add(m('a', '1', score=3), m('a', '2', score=5)), pull('a', 1), pull('a', 2, dl=1), ack('a', '1', lock=1), nack('a', '2', lock=2),
           ack('a', '2'), nack('a', '1'), rem('a', '1'), adv(1), TIMEOUT, UNLOCK]
ORDER = [add(m('a', '1', score=3)), add(m('a', '2', score=1)), add(m('a', '3', score=2), m('a', '4', score=4)), add(m('a', '4', score=OVER)), add(m('a', '1')),
         add(m('a', '2', score=-1)), add(m('a', '3')), add(m('b', '1', score=1), m('b', '2', score=7)),
         pull('a', 0), pull('a', -3), pull('a', 1), pull('a', 2), pull('a', 3), pull('a', 1000), pull('a', 1001), pull('a', 2147483647), pull('b', 2), pull('c', 1), pull('a', 2, min=2), pull('a', 2, max=3),
         ack('a', '1', score=2), ack('a', '2'), ack('a', '3', sub=3), ack('a', '4', score=1), nack('a', '1'), nack('a', '2', score=9), nack('a', '3', lock=1),
         ack('a', '4', lock=1, score=5), adv(1), adv(2), TIMEOUT, UNLOCK, RESTART]
WINDOW = [add(m('a', '1', score=1), m('a', '2', score=2), m('a', '3', score=3), m('a', '4', score=4)), add(m('a', '1')), add(m('a', '2', score=OVER)), add(m('a', '3', score=-1)), add(m('a', '4')),
          pull('a', 1, min=2), pull('a', 2, min=3), pull('a', 5, max=2), pull('a', 1, max=3), pull('a', 5, min=2, max=3), pull('a', 2, min=3, max=3), pull('a', 5, min=4, max=2),
          pull('a', 5, min=-1), pull('a', 5, max=-1), pull('a', 5, min=-3, max=-2), pull('a', 3, max=OVER), pull('a', 3, min=OVER), pull('a', 3, min=MAXS), pull('a', 3, max=INF),
          pull('a', 5, filt=1), pull('a', 5, filt=3), pull('a', 5, filt=2, max=3), pull('a', 5, filt=2, min=1), pull('a', 5, filt=-2), pull('a', 5, filt=HUGE), pull('a', 5, min=BASE), pull('a', 5, max=BASE + 3),
          pull('a', 5, min=BASE + 1, max=BASE + 2), pull('a', 5),
          ack('a', '1'), ack('a', '2', score=3), nack('a', '3'), nack('a', '4', score=2), ack('a', '3', sub=1), ack('a', '1', lock=1, score=2), adv(1), adv(2), adv(3), TIMEOUT, UNLOCK]
DEADL = [add(m('a', '1', score=3), m('a', '2', score=5)), add(m('b', '1', score=2)), add(m('a', '1', score=7)),
         pull('a', 1, dl=1), pull('a', 1, dl=2), pull('a', 2, dl=3), pull('a', 2, dl=0), pull('b', 1, dl=2), pull('a', 1, dl=HUGE), pull('b', 1, dl=-1), pull('a', 2, dl=-HUGE),
         ack('a', '1'), nack('a', '2'), ack('a', '2', lock=1), nack('b', '1', lock=3), rem('a', '1'), adv(1), adv(2), TIMEOUT, TIMEOUT, UNLOCK, RESTART]
LOCKS = [add(m('a', '1', score=3), m('a', '2', score=5)), add(m('b', '1', score=2), m('a', '3', score=4)), add(m('a', '1', score=8)),
         pull('a', 1), pull('a', 3, dl=3), pull('b', 1), ack('a', '1', lock=1), ack('a', '2', lock=2, score=6), ack('a', '1', lock=3, sub=2), ack('a', '3', lock=2, score=-1), ack('b', '1', lock=2, score=OVER),
         nack('a', '1', lock=1), nack('a', '2', lock=2, score=4), nack('b', '1', lock=3), nack('a', '3', lock=HUGE), ack('a', '2', lock=HUGE, score=1), ack('a', '1', lock=-1), nack('a', '2', lock=-HUGE), nack('a', '1', lock=2, sub=3),
         rem('a', '1'), rem('b', '1'), adv(1), adv(2), UNLOCK, UNLOCK, TIMEOUT, RESTART]
SCORE = [add(m('a', '1', score=3)), add(m('a', '2')), add(m('a', '3', score=-1)), add(m('a', '4', score=OVER)), add(m('a', '1', score=INF)), add(m('a', '2', score=-4)), add(m('a', '3', score=-3)), add(m('a', '4', score=-2)), add(m('b', '1', score=MAXS)),
         pull('a', 5), pull('a', 1), pull('b', 1), pull('a', 2, min=1),
         ack('a', '1', score=7), ack('a', '1'), ack('a', '2', sub=2), ack('a', '2', sub=-2), ack('a', '3', sub=HUGE), ack('a', '3', sub=-HUGE), ack('a', '4', score=OVER), ack('a', '4', score=-1), ack('a', '1', score=INF), ack('a', '2', score=-4), ack('a', '3', score=5, sub=4),
         nack('a', '1'), nack('a', '1', score=6), nack('a', '2', score=OVER), nack('a', '2', score=-2), nack('a', '3', score=INF), nack('a', '4', score=-3), nack('a', '4', sub=3), nack('b', '1', score=2), ack('b', '1', sub=5),
         ack('a', '1', lock=1, score=OVER), nack('a', '2', lock=1, score=-1), ack('a', '3', lock=1, sub=2), nack('a', '4', lock=1, score=INF),
         get('a', '1'), get('a', '2'), get('a', '3'), adv(1), adv(2), UNLOCK, TIMEOUT]
NOTFL = [add(m('a', '1', score=3), m('a', '2', score=5)), add(m('a', '1', score=8)), pull('a', 1, dl=1), pull('a', 2, dl=3), ack('a', '1'), ack('a', '1', score=2), ack('a', '2', lock=1), ack('a', '2', lock=2, score=9), ack('a', '3'), ack('c', '1', lock=1), ack('a', '1', sub=3),
         nack('a', '1'), nack('a', '2', score=9), nack('a', '1', lock=2), nack('a', '3', score=4), nack('b', '1'), nack('a', '2', lock=1, score=7), rem('a', '1'), rem('a', '2'), adv(1), adv(2), TIMEOUT, UNLOCK, get('a', '1'), RESTART]
CONSERVE = [add(m('a', '1', score=3), m('a', '2')), add(m('a', '3', score=2), m('b', '1')), add(m('a', '1')), add(m('a', '1', ttl=1), m('b', '2', score=4)), add(m('b', '1', score=9)),
            pull('a', 1), pull('a', 5, dl=1), pull('b', 2), pull('a', 1, min=3), ack('a', '1'), ack('a', '2', lock=1), ack('a', '3', rm=True), nack('a', '1', lock=1, score=4), nack('a', '2'), nack('b', '1', rm=True), ack('b', '1', lock=2), ack('b', '2', score=1),
            rem('a', '1'), rem('a', '1', '2'), rem('b', '2'), rem('a', '1', '1'), adv(1), adv(2), TIMEOUT, UNLOCK, TTL, MAX, editq('a', 2), editq('b', 1), count('a'), count(''), LISTS, METRICS, RECOVER, RESTART]
READD = [add(m('a', '1', score=3, c=(1, 1, 1, 1))), add(m('a', '1', score=7, c=(2, 2, 2, 2))), add(m('a', '1', c=(0, 0, 0, 0))), add(m('a', '1', score=1, c=(3, 0, 3, 0), tl=True)), add(m('a', '1', c=(0, 4, 0, 4), ttl=2)),
         add(m('a', '2', score=5), m('a', '1', score=6, c=(5, 5, 5, 5))), add(m('b', '1', score=2), m('a', '2', c=(2, 0, 0, 2))),
         pull('a', 1), pull('a', 2, dl=1), pull('b', 1), ack('a', '1', bp=1), ack('a', '1', bp=2, lock=1), ack('a', '2', bp=3, score=4), nack('a', '1'), nack('a', '2', lock=1), ack('b', '1', bp=1), rem('a', '1'), adv(1), adv(2), TIMEOUT, UNLOCK, TTL,
         get('a', '1'), get('a', '2'), count('a')]
REMOVE = [drop('cachedrop', 'a', '1', '2'), drop('cachedrop', 'b', '1', '2'), add(m('a', '1', score=3), m('a', '2', score=5)), add(m('b', '1', score=1), m('a', '3', score=2)), add(m('a', '1', score=8, c=(2, 2, 2, 2))), add(m('b', '2')),
          pull('a', 1), pull('a', 3, dl=1), pull('b', 2), ack('a', '1', bp=1), ack('a', '2', lock=1), nack('a', '1', lock=2), nack('a', '3', score=4), ack('b', '1', score=6),
          ack('a', '1', rm=True), ack('a', '2', rm=True, lock=1), nack('a', '1', rm=True), nack('a', '3', rm=True, score=4), ack('b', '1', rm=True), ack('a', '4', rm=True), nack('c', '1', rm=True),
          rem('a', '1'), rem('a', '2'), rem('a', '1', '3'), rem('a', '1', '1', '2'), rem('a', '4'), rem('b', '1', '2'), rem('c', '1'), rem('a'), rem('b', '2', '2'),
          count('a'), count('b'), get('a', '1'), get('b', '1'), adv(1), TIMEOUT, UNLOCK, LISTS, RESTART]
EXPIRY = [add(m('a', '1', score=3, ttl=1), m('a', '2', score=5, ttl=2)), add(m('a', '1', ttl=3)), add(m('a', '3', ttl=1, tl=True)), add(m('a', '1', tl=True, ttl=0)), add(m('a', '3', ttl=2)), add(m('b', '1', ttl=0)), add(m('b', '1', ttl=4), m('b', '2', ttl=HUGE)), add(m('a', '2', ttl=-1)), add(m('b', '2', ttl=1)),
          pull('a', 1), pull('a', 2, dl=1), pull('b', 1), ack('a', '1'), ack('a', '2', lock=1), nack('a', '1', lock=3), nack('b', '1'), nack('a', '3'),
          adv(1), adv(1), adv(2), adv(3), TTL, TTL, TIMEOUT, UNLOCK, get('a', '1'), count('a'), rem('a', '1'), RESTART]
EXPIRYS = [o for o in EXPIRY if o['op'] != 'adv'] + [adv(1), adv(59), adv(59), adv(60), adv(60), adv(61), adv(118)]
EXPIRYMS = [o for o in EXPIRY if o['op'] != 'adv'] + [adv(1), adv(1), adv(59999), adv(59999), adv(60000), adv(60000), adv(119998)]
TRIM = [add(m('a', '1', score=3, ttl=3), m('a', '2', score=5, ttl=2)), add(m('a', '3', ttl=1)), add(m('a', '4', ttl=2)), add(m('a', '1', ttl=5)), add(m('a', '2', tl=True)), add(m('a', '3', tl=True)), add(m('b', '1', ttl=2), m('b', '2', ttl=2), m('b', '3', ttl=2)), add(m('b', '1', ttl=2)), add(m('b', '4', ttl=HUGE)),
        editq('a', 2), editq('a', 1), editq('b', 2), editq('a', -1), editq('b', 0), editq('b', 1), editq('c', 1), editq('b', HUGE), MAX, MAX, pull('a', 2), pull('b', 1), ack('a', '1', lock=1), ack('b', '1'), nack('a', '2'), rem('a', '1'), adv(1), adv(2), TTL, count('a'), count('b'), RESTART]
CONFIG = [editq('a', 2), editq('a', 1), editq('a', -1), editq('a', 0), editq('b', 2), editq('b', -5), editq('b', 7), editq('c', 1000000), editq('a', 1, nil=True), getq('a'), getq('b'), getq('c'), getq('a'), RESTART, add(m('a', '1', ttl=1), m('a', '2', ttl=2), m('a', '3', ttl=3)), add(m('b', '1'), m('b', '2'), m('b', '3')), MAX, count('a'), adv(5), adv(10), LOSE]
ISO = [add(m('a', '1', score=3, c=(1, 1, 1, 1)), m('b', '1', score=4, c=(2, 2, 2, 2))), add(m('b', '2', score=1), m('c', '1', score=2, c=(3, 3, 3, 3))), add(m('a', '2', ttl=1)), add(m('a', '1', c=(4, 4, 4, 4))), add(m('c', '2', score=5, ttl=2)), add(m('b', '1', ttl=1)),
       pull('a', 1), pull('a', 9, dl=1), pull('b', 1), pull('b', 9), pull('c', 9, dl=1), pull('b', 2, min=2), ack('a', '1', bp=1), ack('a', '1', lock=1), ack('b', '1', lock=1, score=6), nack('b', '1', score=6), nack('c', '1', lock=2), nack('a', '2', lock=1), ack('b', '2'), ack('c', '1', score=2),
       rem('a', '1'), rem('b', '1', '2'), rem('c', '1'), ack('a', '1', rm=True), editq('a', 1), editq('b', 1), editq('c', 2), getq('a'), getq('b'), getq('c'), count('a'), count('b'), count('c'), get('a', '1'), get('b', '1'), get('c', '1'),
       adv(1), adv(2), TIMEOUT, UNLOCK, TTL, MAX, LISTS, METRICS]
FLUSHA = [add(m('a', '1', score=3), m('b', '1')), add(m('a', '2', score=5, ttl=2)), pull('a', 1), pull('a', 2, dl=1), ack('a', '1', lock=1), nack('a', '2', lock=2), ack('a', '1'), editq('a', 1), editq('b', 3), getq('a'), getq('b'), FLUSH, FLUSH, count(''), LISTS, METRICS, get('a', '1'), adv(1), TIMEOUT, UNLOCK, MAX, TTL, RECOVER, CFLUSH]
DIAG = [add(m('a', '1', score=3), m('a', '2', score=5)), add(m('a', '1', c=(2, 2, 2, 2))), pull('a', 1), pull('a', 2, dl=1), ack('a', '1'), ack('a', '2', score=2), ack('a', '1', lock=1), nack('a', '1'), nack('a', '2', score=4), nack('a', '1', lock=1), nack('a', '2', lock=2, score=1), ack('a', '2', sub=1),
        ack('a', '3'), nack('a', '4'), rem('a', '1'), adv(1), TIMEOUT, UNLOCK, get('a', '1'), RESTART]
CONTENT = [add(m('a', '1', score=3, c=(1, 2, 3, 4))), add(m('a', '1', c=(5, 0, 6, 0))), add(m('a', '2', score=5, c=(0, 0, 0, 0)), m('b', '1', score=1, c=(7, 7, 7, 7))), add(m('a', '2', c=(0, 8, 0, 8))), add(m('b', '1', c=(9, 0, 0, 9))), add(m('a', '1', c=(0, 1, 0, 2))),
           pull('a', 1), pull('a', 2, dl=1), pull('b', 1), ack('a', '1', bp=1), ack('a', '1', bp=0), ack('a', '2', bp=2, lock=1), ack('b', '1', bp=3), nack('a', '1', bp=4), nack('a', '2'), nack('b', '1', lock=1), rem('a', '1'), adv(1), TIMEOUT, UNLOCK,
           get('a', '1'), get('a', '2'), get('b', '1'), get('a', '4'), get('', '1'), get('a', ''), get('', ''), get('b', '2'), RESTART]
STALE = [add(m('a', '1', score=4), m('a', '2', score=2), m('a', '3', score=3)), add(m('a', '1', score=1), m('a', '2', score=2)), add(m('a', '4', score=1)), add(m('b', '1', score=1)), add(m('a', '1', score=5, c=(2, 2, 2, 2))), drop('storedrop', 'a', '1'), drop('storedrop', 'a', '2', '3'), drop('storedrop', 'a', '4'), drop('storedrop', 'b', '1'),
         pull('a', 1), pull('a', 2), pull('a', 3, dl=1), pull('a', 9), pull('b', 1), pull('a', 2, min=2), ack('a', '2'), nack('a', '3'), ack('a', '1', lock=1), adv(1), adv(2), TIMEOUT, UNLOCK, count('a'), LISTS]
LAG = [op('lag', on=True), op('lag', on=False), drop('storedrop', 'a', '1'), drop('storedrop', 'a', '2', '3'), add(m('a', '1', score=4), m('a', '2', score=2)), add(m('a', '3', score=3)), add(m('a', '1', c=(2, 2, 2, 2))), add(m('b', '1', score=1)), pull('a', 1), pull('a', 2, dl=1), pull('a', 9), pull('b', 1), ack('a', '1', bp=1), ack('a', '2', score=5), nack('a', '3'), ack('b', '1', lock=1), adv(1), TIMEOUT, UNLOCK, get('a', '1'), get('a', '3'), rem('a', '1')]
# one message through everything that can happen to it
ONE = [add(m('a', '1', score=3, c=(1, 1, 1, 1))), add(m('a', '1', score=7, c=(2, 0, 2, 2))), pull('a', 1, dl=2), pull('a', 1, dl=1), ack('a', '1', bp=1), ack('a', '1', lock=1, score=6), ack('a', '1', lock=1), ack('a', '1', score=9, bp=2),
       nack('a', '1', lock=1, score=4), nack('a', '1', lock=2), nack('a', '1'), nack('a', '1', score=8), rem('a', '1'), nack('a', '1', rm=True), adv(1), adv(2), UNLOCK, TIMEOUT]
ONEB = ONE + [add(m('b', '1', score=2, c=(3, 3, 3, 3))), pull('b', 1), ack('b', '1', lock=1, score=5), nack('b', '1', bp=3), rem('b', '1')]
METR = [add(m('a', '1', score=3), m('b', '1')), add(m('a', '2', score=5, ttl=1)), add(m('c', '1'), m('c', '2', ttl=1)), add(m('a', '1')), pull('a', 1), pull('a', 3, dl=1), pull('b', 1), pull('c', 2), ack('a', '1'), ack('a', '2', lock=1), nack('a', '1', lock=1), nack('b', '1', reason=''), ack('b', '1', reason='other'), ack('c', '1'), ack('c', '9'),
        rem('a', '1'), rem('b', '1'), rem('c', '1', '2'), rem('a', '2'), drop('storedrop', 'a', '1'), drop('storedrop', 'c', '1'), editq('a', 1), MAX, adv(1), adv(2), TIMEOUT, UNLOCK, TTL, METRICS, METRICS, METRICS]
NAMES = [add(m('a', '1', score=3), m('b', '1')), add(m('c', '1'), m('c', '2', ttl=1)), add(m('b', '2')), pull('a', 1), pull('b', 3, dl=1), ack('a', '1'), nack('b', '1'), ack('b', '2', lock=1), rem('a', '1'), rem('b', '1', '2'), rem('c', '1'), adv(1), TIMEOUT, UNLOCK, TTL, METRICS, METRICS, LISTS, LISTS, count('a'), count('b')]
COUNT = [add(m('a', '1', score=3), m('b', '1')), add(m('a', '2', score=5, ttl=1), m('c', '1')), add(m('a', '1')), add(m('b', '1'), m('b', '2')), pull('a', 1), pull('a', 2, dl=1), pull('b', 1), pull('c', 1), ack('a', '1'), ack('a', '2', lock=1), nack('b', '1', lock=1), nack('a', '1'), ack('c', '1', lock=2), rem('a', '1'), rem('a', '1', '2'), rem('b', '1'), rem('c', '1'), ack('b', '2', rm=True),
         adv(1), adv(2), TIMEOUT, UNLOCK, TTL, editq('a', 1), MAX, count('a'), count('b'), count('c'), count(''), LISTS, LISTS, LISTS]
INVALID = [add(m('a', '1', score=3), m('a', '2')), add(m('', '1')), add(m('a', '')), add(m('a', '3'), m('', '1')), add(m('a', '3'), m('b', '')), add(m('b', '1'), m('', '')), add(), add(m('a', '1', c=(2, 2, 2, 2)), m('a', '')),
           ack('', '1'), ack('a', ''), ack('', ''), nack('', '1'), nack('a', ''), nack('', '', lock=2), ack('a', '', rm=True), nack('', '1', rm=True), ack('', '2', lock=1, score=3), get('', '1'), get('a', ''), get('', ''), editq('a', 5, nil=True), editq('b', 1, nil=True), rem('a'), rem('b'),
           pull('a', 1), pull('a', 2, dl=1), ack('a', '1'), nack('a', '2', lock=1), getq('a'), getq('b'), count(''), adv(1), TIMEOUT, UNLOCK, LISTS]
RECOV = [op('recmark'), add(m('a', '1', score=3), m('b', '1')), add(m('a', '2', score=5)), add(m('a', '3', score=-1), m('b', '2', score=OVER)), add(m('a', '1', score=8)), pull('a', 1), pull('a', 3, dl=1), pull('b', 2), ack('a', '1', score=4), ack('a', '2', lock=1), nack('a', '1', score=6), nack('b', '1', lock=2, score=2), ack('a', '3'), rem('a', '1'), rem('b', '1'),
         LOSE, CFLUSH, LOSE, RECOVER, RECOVER, RECOVER, RESTART, adv(1), adv(2), TIMEOUT, UNLOCK, TTL, MAX, editq('a', 1)]
RECDEL = [op('recmark'), add(m('a', '1', score=3, ttl=1)), add(m('a', '2', score=5, ttl=2), m('b', '1', ttl=1)), add(m('a', '1', ttl=3)), add(m('b', '2', score=4)), editq('a', 1), editq('b', 1), pull('a', 1), ack('a', '1', score=4), nack('b', '1', lock=1),
          LOSE, CFLUSH, RECOVER, RECOVER, TTL, TTL, MAX, MAX, adv(1), adv(1), TIMEOUT, UNLOCK, count(''), RESTART]
MIX = [add(m('a', '1', score=3)), add(m('a', '1', ttl=2, c=(2, 0, 2, 2))), add(m('a', '2', score=5)), add(m('a', '3'), m('b', '1', score=1)), add(m('b', '1', score=OVER), m('b', '2', score=-2, tl=True)),
       pull('a', 1), pull('a', 2, dl=3), pull('b', 5, dl=0), pull('a', 5, min=2, max=4), pull('a', 1, max=BASE + 2), pull('a', 5, min=BASE),
       ack('a', '1', score=7, bp=2), ack('a', '2'), ack('a', '3', sub=2), ack('a', '1', lock=2), ack('a', '2', lock=3, score=2), ack('b', '1', rm=True), nack('a', '1'), nack('a', '2', lock=2), nack('a', '3', lock=1, score=4), nack('a', '1', score=6),
       rem('a', '1'), rem('a', '2', '3'), rem('b', '1'), adv(1), adv(2), adv(6), TIMEOUT, UNLOCK, TTL, MAX, editq('a', 2), editq('a', -1), getq('a'), count('a'), get('a', '1'), LISTS, METRICS, RECOVER, LOSE, CFLUSH, RESTART]


def bulk(ctx, sizes, body):
    """Given behaviours over many messages."""
    return [o for s in sizes for o in body(s)]


def many(q, n, sc=None, first=1, ttl=30, size=2500):
    ms = [m(q, str(first + i), score=(sc(i) if sc else 1 + i % 20), ttl=ttl, c=(0, 0, 1, 0)) for i in range(n)]
    return [add(*ms[i:i + size]) for i in range(0, n, size)]


def bulk_pull(ctx):
    out = []
    for n, a in ctx.pick([(1005, 1000), (1003, 2000)], [(1005, 1000), (1003, 2000), (1500, 999), (2100, 1001)]):
        out.append(many('a', n, lambda i: 1 + (i * 7) % 20) + [pull('a', a, dl=3), pull('a', 3, min=10), pull('a', a), pull('a', 5)])
    return out


def bulk_due(ctx):
    return [many('a', 1000) + many('b', 999) + [pull('a', 1000, dl=1), pull('b', 1000, dl=1), adv(2), TIMEOUT, drain('a', [0]), drain('b', [0])],
            many('a', 130) + many('b', 40) + many('c', 60) + [pull('a', 1000, dl=1), pull('b', 1000, dl=2), pull('c', 1000, dl=3), adv(2), TIMEOUT, drain('a', [0]), drain('b', [0]), adv(1), TIMEOUT, drain('c', [0])]]


def bulk_locked(ctx):
    def acks(q, n, **k):
        return [ack(q, str(i + 1), **k) for i in range(n)]

    def nacks(q, n, **k):
        return [nack(q, str(i + 1), **k) for i in range(n)]
    n = ctx.pick(220, 1000)
    return [many('a', n) + many('b', 30) + [pull('a', 1000), pull('b', 1000)] + acks('a', n, lock=1) + nacks('b', 30, lock=2, score=3) + [adv(2), UNLOCK, drain('a', [BASE + 2]), drain('b', [3])],
            many('a', n) + [pull('a', 1000)] + nacks('a', n, lock=1) + [adv(1), UNLOCK, drain('a', [0])]]


def sim(name, ops, **k):
    return Fam(name, ops, 'sim', **k)


def cov(name, ops, **k):
    k.setdefault('depth', (4, 6))
    k.setdefault('num', (120, 1500))
    return Fam(name, ops, 'cover', **k)


def conc(name, states, a, b, num=(36, 100000), after=(), **k):
    """Pairs of operations meeting in prepared states."""
    k.setdefault('combos', ['memory/memory', 'redis/mongo'])
    k.setdefault('mx', (16, 150))
    meet = k.pop('meet', fam.par)
    return Fam(name, seqs=lambda ctx: scen.pick(ctx, scen.pairs(states.split(), a.split(), b.split(), after, meet), *num), **k)


def conc3(name, states, a, b, c, num=(0, 400), after=(), **k):
    k.setdefault('combos', ['memory/memory', 'redis/mongo'])
    k.setdefault('mx', (12, 120))
    meet = k.pop('meet', fam.par)
    return Fam(name, seqs=lambda ctx: scen.pick(ctx, scen.triples(states.split(), a.split(), b.split(), c.split(), after, meet), *num), **k)


def flts(name, states, ops, num=(60, 100000), after=(), **k):
    k.setdefault('combos', ['memory/memory', 'redis/mongo'])
    return Fam(name, seqs=lambda ctx: scen.apt(ctx, scen.faults(states.split(), ops.split(), after=after), *num), **k)


def hist(name, ops, last, num=(30, 400), **k):
    return Fam(name, seqs=scen.mixed(ops, last, num=num, name=name), **k)


ALLS = ' '.join(scen.STATES)
ALLO = ' '.join(o for o in scen.OPS if o != 'lists')
PROPS = {}


def P(id, *parts, level='model_checking'):
    PROPS[id] = {'parts': list(parts), 'level': level}


ms = dict(scale=1, far=400000, maxnow=20)
P('C01', part([conc('meet', 'one two due locknack leased leased2 lockack', 'pull1 pull2', 'pull1 pull2 timeout unlock ack nack add acklock'), conc3('meet3', 'one two due locknack', 'pull1 pull2', 'pull1 pull2', 'pull1 timeout unlock ack', tiers=['thorough']), sim('lease', LEASE), sim('leasems', LEASE, subus=999, **ms, num=(60, 600)), cov('leasec', LEASE_S, snap=1), sim('stale', [o for o in MIX if o['op'] not in ('recover',)], combos=TWO, snap=1, num=(80, 800))]))
P('C02', part([conc('meet', 'two one locknack due', 'pull1 pull2', 'add add3 ack2 rem pull1', num=(20, 1000)), sim('order', ORDER), sim('orderr', ORDER, snap=1, num=(150, 1500), combos=ALL4), Fam('bulkpull', seqs=bulk_pull, combos=THREE, snap=1, names=[QNAMES[0]], epi=False, ids={}, grid=GRIDS[0])]))
P('C03', part([sim('window', WINDOW), sim('windowr', WINDOW, snap=1, num=(200, 2000), combos=ALL4), sim('windowms', WINDOW, snap=1, subus=999, **ms, num=(60, 600))]))
P('C04', part([flts('broken', 'due due2', 'timeout', after=[TIMEOUT]), conc('meet', 'due leased leased2', 'timeout', 'ack nack pull1 rem acklock timeout add', num=(21, 1000)), sim('deadline', DEADL), sim('deadlinems', DEADL, **ms), sim('deadliner', DEADL, snap=1, scale=1000, far=500), Fam('bulkdue', seqs=bulk_due, snap=1, epi=False, ids={}, names=[QNAMES[0]], grid=GRIDS[0])]))
P('C05', part([flts('broken', 'locks2 lockack', 'unlock', after=[UNLOCK]), conc('meet', 'lockack locknack locked', 'unlock', 'unlock pull1 rem ack nack add', num=(18, 1000)), sim('one', ONE, depth=(40, 60), num=(80, 800)), sim('locks', LOCKS), sim('locksms', LOCKS, **ms, num=(100, 1000)), sim('locksr', LOCKS, snap=1, num=(150, 1500)), Fam('bulklock', seqs=bulk_locked, snap=1, epi=False, ids={}, names=[QNAMES[0]], grid=GRIDS[0])]))
P('C06', part([conc('meet', 'leased leased2', 'ack nack acklock', 'add pull1 ack2 rem timeout', num=(16, 1000)), sim('one', ONE, depth=(40, 60), num=(80, 800)), sim('scores', SCORE), sim('scoresr', SCORE, snap=1, combos=ALL4), sim('scoresms', SCORE, num=(80, 800), subus=999, **ms), sim('locks', LOCKS, num=(60, 600), snap=1)]))
P('C07', part([conc('meet', 'leased leased2 due one locked', 'ack nack acklock nacklock ackrm', 'ack nack acklock nacklock ackrm timeout', num=(40, 1000)), conc3('meet3', 'leased due', 'ack nack', 'ack acklock', 'nack timeout nacklock', tiers=['thorough']), sim('one', ONE, depth=(40, 60), num=(80, 800)), sim('notfl', NOTFL), cov('notflc', NOTFL[:22], depth=(3, 4), num=(250, 4000), snap=1), sim('notflr', NOTFL, snap=1, bias=3)]))
P('C08', part([sim('scores', SCORE), sim('scoresr', SCORE, snap=1, combos=ALL4), sim('window', WINDOW, num=(60, 600)), sim('locks', LOCKS, num=(60, 600))]))
P('C09', part([conc('meet', ALLS, ALLO, ALLO, num=(40, 4000)), hist('hist', MIX, scen.anypair(MIX), num=(30, 600), combos=TWO, mx=(10, 60)), conc('meetc', ALLS, ALLO, ALLO, num=(12, 1000), combos=['cluster/memory', 'memory/mongo']), sim('one', ONE, depth=(40, 60), num=(80, 800)), sim('conserve', CONSERVE, depth=(30, 40)), sim('conserver', CONSERVE, snap=1, depth=(40, 60), combos=ALL4), sim('mix', MIX, num=(80, 800))]))
P('C10', part([conc('meet', 'one leased locked lockack due stale unqueued', 'add add3', 'add add3 ack nack pull1 acklock timeout unlock'), sim('one', ONE, depth=(40, 60), num=(80, 800)), sim('readd', READD, combos=ALL4), cov('readdc', READD, depth=(3, 4), num=(150, 3000)), sim('readdr', READD, snap=1)]))
P('C11', part([conc('meet', 'one leased locked due lockack stale', 'rem rem2 ackrm', 'pull1 ack nack timeout unlock rem rem2 ackrm acklock'), sim('one', ONE, depth=(40, 60), num=(80, 800)), sim('remove', REMOVE, combos=ALL4), sim('remover', REMOVE, snap=1), cov('removec', REMOVE, depth=(3, 4), num=(150, 3000), snap=1)]))
P('C12', part([conc('meet', 'expired expleased', 'ttl', 'ttl pull1 pull2 ack nack timeout unlock rem add3', num=(18, 100)), sim('expiry', EXPIRY, combos=ALL4, maxnow=12), sim('expiryr', EXPIRY, snap=1, maxnow=12), sim('expirys', EXPIRYS, scale=1000, num=(60, 600), far=400, maxnow=400), sim('expiryms', EXPIRYMS, scale=1, num=(60, 600), epi=False, maxnow=400000)]))
P('C13', part([flts('broken', 'over2 over', 'max', after=[MAX]), conc('meet', 'over', 'max', 'max pull1 pull2 rem ttl add3', num=(18, 100)), sim('trim', TRIM, combos=ALL4, maxnow=12), cov('trimc', TRIM, depth=(3, 4), num=(100, 2000)), sim('trimms', TRIM, num=(80, 800), combos=ALL4, **ms), sim('trimr', TRIM, snap=1, maxnow=12)]))
P('C14', part([conc('meet', 'none cfg cfgread', 'edit1 edit2 edit3 editn', 'edit2 edit3 getq getqb editb', after=[getq('a'), getq('b'), editq('a', 3), getq('a')], meet=fam.same, num=(40, 1000), mx=(20, 200)),
               conc3('meet3', 'cfg cfgread', 'edit1 edit2 edit3', 'getq', 'edit3 getq editn', after=[getq('a'), getq('b')], meet=fam.same, num=(8, 400)), sim('config', CONFIG, combos=ALL4), sim('trim', TRIM, maxnow=12, num=(80, 800))]))
P('C17', part([sim('oneb', ONEB, depth=(40, 60), num=(80, 800), names=QNAMES), sim('iso', ISO, names=QNAMES, combos=TWO, ids=None), sim('isoc', ISO, names=QNAMES, combos=['cluster/mongo', 'redis/memory'], num=(80, 800)), sim('isor', ISO, names=QNAMES, combos=ALL4, snap=1, num=(100, 1000))]))
P('C20', part([conc('meet', 'leased leased2', 'ack nack acklock', 'ack nack nacklock add ack2 timeout', num=(30, 100)), sim('one', ONE, depth=(40, 60), num=(80, 800)), sim('diag', DIAG, combos=ALL4), sim('diagr', DIAG, snap=1, combos=ALL4, num=(80, 800))]))
P('C21', part([sim('one', ONE, depth=(40, 60), num=(80, 800)), sim('content', CONTENT, combos=ALL4), sim('contentr', CONTENT, snap=1, num=(100, 1000)), sim('iso', ISO, names=QNAMES, num=(60, 600), combos=TWO)]))
P('C22', part([conc('meet', 'stale', 'pull1 pull2', 'pull1 pull2 add rem ack add3', num=(12, 100)), sim('stale', STALE), sim('staler', STALE, snap=1, combos=ALL4), sim('lag', LAG, combos=['redis/mongo', 'memory/mongo', 'cluster/mongo']), sim('lagr', LAG, combos=['redis/mongo', 'memory/mongo'], snap=1)]))
P('C28', part([sim('metrics', METR, combos=ALL4, names=QNAMES), sim('metricsr', METR, num=(80, 800), names=QNAMES, depth=(35, 50), combos=TWO)]))
P('C29', purefam.part(purefam.names), part([sim('names', NAMES, names=QNAMES, combos=ALL4)]))
P('C32', part([sim('count', COUNT, combos=ALL4, names=QNAMES), sim('countr', COUNT, snap=1, names=QNAMES)]))
P('C33', part([sim('invalid', INVALID, combos=ALL6), cov('invalidc', INVALID, depth=(3, 4), num=(120, 2000), combos=ALL4)]))
P('C15', part([conc('meet', 'lost recovering unqueued lostexp', 'recover', 'recover add add3 pull1 ack rem timeout', num=(24, 1000), after=[RECOVER, RECOVER], lab=['C15']), flts('broken', 'lost recovering lostexp', 'recover', after=[RECOVER, RECOVER, RECOVER]), sim('recov', RECOV, combos=ALL4), sim('recovr', RECOV, snap=1)]))

P('C16', part([conc('meet', 'lostexp lostover recovering runexp runover', 'recover', 'ttl max recover', num=(15, 100), after=[TTL, MAX, RECOVER, RECOVER, TTL, MAX]),
               flts('broken', 'lostexp lostover none runexp runover', 'recover ttl max', after=[TTL, MAX, RECOVER, TTL, MAX, RECOVER, TTL, MAX]),
               flts('broken2', 'expired over', 'ttl max', after=[TTL, MAX, RECOVER, TTL, MAX]),
               sim('recdel', RECDEL, combos=ALL4), hist('hist', RECDEL, scen.anyfault(RECDEL), num=(40, 600), combos=TWO)]))
P('C23', part([flts('flt', ALLS, ALLO, num=(270, 100000)), flts('fltc', ALLS, ALLO, num=(70, 2000), combos=['cluster/mongo', 'redis/memory', 'memory/mongo']), hist('hist', MIX, scen.anyfault(MIX), num=(50, 1000), combos=TWO)]))
SHARED = CONSERVE + [CFLUSH, LISTS, RECOVER]
SHARED = [o for o in SHARED if o['op'] not in ('metrics', 'losecache', 'max', 'editq')] + [RECOVER, LISTS, CFLUSH]
P('C18', part([sim('flush', FLUSHA, combos=['memory/memory', 'redis/mongo', 'redis/memory', 'memory/mongo', 'cluster/mongo'], num=(100, 1000)), sim('flushm', FLUSHA, combos=['memory/memory'], num=(200, 2000), snap=1)]), tenfam.part('shared', SHARED, without='cacheflush', num=(40, 400)))
BRACE = [add(m('a', '1', score=3)), add(m('b', '1', score=1)), add(m('c', '1', score=2)), add(m('a', '2'), m('b', '2')), add(m('c', '1'), m('a', '3', score=2)), pull('a', 2, dl=1), pull('b', 1), pull('c', 1), pull('b', 5, min=1), ack('a', '1'), ack('b', '1'), ack('c', '1', lock=1), ack('b', '1', rm=True), nack('b', '1', lock=2), nack('c', '2', rm=True), nack('a', '2', lock=1),
         rem('a', '1'), rem('b', '1'), rem('c', '1', '2'), count('a'), count(''), get('b', '1'), adv(1), TIMEOUT, UNLOCK, TTL, LISTS, METRICS, RECOVER]
BNAMES = [dict(a='ok', b='{x}', c='a{b'), dict(a='ok::b', b='x}', c='{}'), dict(a='o', b='o{', c='{o}'), dict(a='{', b='}', c='ok'), dict(a='x', b='deckard_v1:queue:{x}', c='{x}:tmp')]
CLU = ['cluster/memory', 'cluster/mongo']
P('C30', part([sim('clu', CONSERVE, combos=CLU, names=QNAMES, any=True, num=(80, 800)), sim('clur', ISO, combos=CLU, names=QNAMES, snap=1, any=True, depth=(40, 60), num=(50, 500)), sim('clul', LEASE, combos=CLU, names=QNAMES, any=True, num=(60, 600)),
               sim('cluf', FLUSHA, combos=CLU, names=QNAMES, any=True, num=(40, 400))]),
     part([sim('brace', BRACE, combos=['redis/memory', 'cluster/mongo', 'memory/mongo'], names=BNAMES, num=(80, 800))]), tenfam.part('shared', SHARED))
P('C25', purefam.part(purefam.config))
P('C31', purefam.part(purefam.conv, purefam.clock))
MIXNT = MIX + [ack('c', '1'), add(m('c', '1', score=7), m('c', '2', score=6)), pull('c', 1), nack('c', '2', score=3, lock=1), count(''), get('b', '1'), getq('b'), editq('b', 1), add(m('a', '1', score=4, tl=True, c=(0, 3, 0, 3)))]
P('C19', agree.part([sim('mix', MIXNT, combos=ALL6, num=(100, 1000), depth=30), sim('mixr', MIXNT, combos=ALL6, snap=1, num=(60, 600), depth=(50, 80)), sim('scores', SCORE, combos=ALL6, num=(40, 500)), sim('invalid', INVALID, combos=ALL6, num=(30, 400)), sim('readd', READD, combos=ALL6, num=(40, 500)), sim('expiry', EXPIRY, combos=ALL6, num=(40, 500)), sim('trim', TRIM, combos=ALL6, num=(40, 500))]))
# the interleaved steps of the specification keep the guarantees
DES = {'C01': ('pull1 pull2 ack acklock nack timeout unlock add', 'two leased due'), 'C09': ('add add3 rem rem2 ackrm nacklock pull1 ack timeout', 'none leased'),
       'C12': ('ttl add rem recover pull1 ack', 'expired expleased'), 'C13': ('max add3 rem ttl pull1', 'over expired'),
       'C15': ('recover add rem pull1 ack', 'lost recovering lostexp'), 'C16': ('ttl max recover', 'lostexp lostover recovering'),
       'C20': ('ack nack ackrm pull1 timeout', 'leased leased2'), 'C22': ('pull1 pull2 add rem', 'stale two'), 'C23': ('add rem ack acklock nack nacklock pull1', 'none leased')}
for p_, (o_, s_) in DES.items():
    f_ = 1 if p_ in ('C15', 'C16', 'C23') else 0
    PROPS[p_]['parts'].insert(0, design.part(o_, s_, (3, 2, f_, p_ == 'C15'), (4, 2, 1, p_ in ('C15', 'C23'))))

H1 = [[('recovery', 'page')], [('ttl', 'delete')], [('req', 'storage')], [('trace', 'trace')]]
H2 = H1 + [[('audit', 'audit')], [('unlock', 'script')], [('recovery', 'page'), ('req', 'storage')], [('ttl', 'delete'), ('trace', 'trace')], [('recovery', 'set'), ('unlock', 'script')]]
PROPS['C09']['parts'].append(races.part('STRANDED-REMOVE-ADD', 'STRANDED-PULL-ADD'))
PROPS['C12']['parts'].append(races.part('DELETED-TTL-READD'))
def free(id, states, *groups, **k):
    PROPS[id]['parts'].append(hammer.part(states, *groups, **k))


free('C01', 'one two due locknack leased', ('pull1 pull2', 'pull1 pull2 ack timeout unlock add', 'pull1 ack nack acklock'))
free('C07', 'leased leased2 due', ('ack nack', 'ack acklock nacklock', 'timeout nack pull1'))
free('C09', 'none one leased over', ('add add3 rem2', 'pull2 ack nacklock', 'max ttl rem unlock timeout count'))
free('C14', 'none cfg cfgread', ('edit1 edit2', 'edit3 editn getq', 'getq getqb'))
free('C12', 'expired expleased', ('ttl', 'pull1 ack nack rem', 'ttl timeout add3'), num=(16, 1000))
free('C13', 'over', ('max', 'pull2 rem add3', 'max ttl'), num=(12, 1000))
free('C15', 'lost recovering', ('recover', 'add rem pull1 recover ack timeout'), num=(12, 1000))
free('C32', 'two leased expired', ('count lists', 'add3 rem2', 'ack lists ttl'), num=(24, 1000))
RECORDS = [add(m('a', '1', score=3), m('a', '2', score=5)), add(m('a', '3', score=2, ttl=1), m('b', '1', score=1)), add(m('a', '1', score=7)), add(m('b', '2', ttl=2), m('a', '2'), m('b', '1')), pull('a', 1, dl=1), pull('a', 3, dl=2), pull('b', 2),
           ack('a', '1', bp=1, sub=2, reason='r1'), ack('a', '2', lock=2, bp=3), ack('b', '1', reason='done', sub=-1), ack('a', '3', rm=True, reason='x', bp=2), ack('a', '1', lock=-1), ack('b', '2', lock=1, reason='y', score=3), ack('c', '1'),
           nack('a', '1', bp=4, sub=1), nack('a', '2', lock=1, reason='r2', bp=1, sub=3), nack('b', '1', lock=3), nack('b', '2', rm=True, reason='z', sub=1), nack('a', '3', reason='r1'), nack('c', '2', lock=1),
           rem('a', '1', '2'), rem('a', '1'), rem('a', '3', '2', '1'), rem('b', '1', '2'), rem('c', '1', '2'), drop('cachedrop', 'a', '1'), drop('cachedrop', 'a', '2', '3'), drop('cachedrop', 'b', '1', '2'), drop('storedrop', 'a', '1'), drop('storedrop', 'a', '2', '3'),
           editq('a', 1), editq('b', 1), MAX, TTL, adv(1), adv(2), TIMEOUT, TIMEOUT, UNLOCK, UNLOCK, LOSE, RECOVER, RECOVER]
P('C24', audfam.model, audfam.part, part([sim('records', RECORDS, combos=ALL4, num=(120, 1200)), sim('recordsr', RECORDS, snap=1, num=(100, 1000), depth=(35, 60)), Fam('bulkdue', seqs=bulk_due, snap=1, epi=False, ids={}, names=[QNAMES[0]], grid=GRIDS[0], tiers=['thorough'])]), life.part(life.audits))
P('C34', connfam.part)
P('C35', bootfam.part)
P('C36', pagefam.part)
HUGE = [999, 1000, 1001, 2100]
for p_, k_, s_ in [('C02', 'add pull drain adv timeout', HUGE), ('C04', 'add pull drain adv timeout many', HUGE), ('C05', 'add drain ack nack adv unlock many', HUGE), ('C09', bulkfam.ALL, bulkfam.SIZES), ('C10', 'add drain remove ack adv timeout count', [1999, 2000, 2001, 4001]),
                   ('C11', 'add drain remove ack nack lose recover adv', [99, 100, 101, 3999, 4000, 4001, 8001]), ('C12', 'add drain ack ttl adv lose recover', [99, 100, 101, 4001, 9999, 10000, 10001, 10100]),
                   ('C13', 'add drain nack max editq adv lose recover', [1, 99, 100, 101, 1000, 2001, 5000]), ('C15', 'add drain lose recover pull remove ack many lists', [1, 3999, 4000, 4001, 7999, 8000, 8001]), ('C18', 'add pull drain many lists cacheflush recover ack adv unlock timeout', [1, 999, 2001]),
                   ('C24', 'add drain ack nack adv timeout unlock remove max editq', [99, 1000, 1001, 2000, 2001, 4001]), ('C32', 'add remove drain count lose many lists ack recover', [1, 99, 1000, 4001])]:
    PROPS[p_]['parts'].append(bulkfam.part(k_, num=(10, 120) if p_ != 'C09' else (16, 240), sizes=s_, w={'C13': {'max': 6, 'editq': 3}, 'C12': {'ttl': 6, 'adv': 3}, 'C11': {'remove': 4}, 'C15': {'recover': 4, 'lose': 2}, 'C04': {'timeout': 4}, 'C05': {'unlock': 4}, 'C18': {'cacheflush': 3}}.get(p_)))
P('C26', design.life(H1, H2), life.part(life.shutdowns))
P('C27', design.life(H1[:2], H2), life.part(life.tasks))
REPLAY = {'bulk': bulkfam.replay, 'conn': connfam.replay, 'boot': bootfam.replay, 'page': pagefam.replay, 'hammer': hammer.replay, 'free': hammer.replay, 'audit': audfam.replay, 'race': races.replay, 'life': life.replay, 'tenants': tenfam.replay, 'agree': agree.replay, 'seq': seqfam.replay, 'pure': purefam.replay}

TECH = 'TLA+ specification (TLC): behaviours generated from it are replayed on the real server, the recorded executions are checked against it'
NOTE = ('Every replayed behaviour agrees with the specification on the real code for each engine combination listed in the evidence; bounded by the generated '
        'behaviours. Trusts the specification, the protocol-level stand-ins for Redis and MongoDB and TLC.')
