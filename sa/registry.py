"""Which analyses decide which property."""
import traceback

from .core import Facts
from .util import Report
from . import stream, decoder, encoder, handler, messaging, tasks, app, waits, depth, trie, store, passwd, taint, growth

ASSUME = [
    'the MIR rustc builds for the workspace (nightly toolchain, dev profile) has the semantics of the program that is shipped',
    'the models of library calls in sa/models.py describe tokio, bytes and std correctly; unmodelled calls return an unknown value',
]


def g_stream(ctx):
    ctx.S = stream.Streams(ctx.lib, ctx.rep)
    ctx.S.verify()


def g_decoder(ctx):
    ctx.need('stream')
    decoder.check(ctx.lib, ctx.rep, ctx.S)


def g_encoder(ctx):
    ctx.need('stream')
    encoder.check(ctx.lib, ctx.rep, ctx.S)


def g_handler(ctx):
    handler.check(ctx.lib, ctx.rep)


def g_messaging(ctx):
    messaging.check(ctx.lib, ctx.rep)


def g_tasks(ctx):
    ctx.need('stream')
    tasks.check_connections(ctx.lib, ctx.rep, ctx.S)


def g_app(ctx):
    ctx.need('stream')
    app.check(ctx.lib, ctx.rep, ctx.S)


def g_waits(ctx):
    ctx.need('stream')
    waits.check(ctx.lib, ctx.rep, ctx.S)


def g_depth(ctx):
    depth.check_depth(ctx.lib, ctx.rep)
    depth.check_futures(ctx.lib, ctx.rep)


def g_trie(ctx):
    trie.check(ctx.lib, ctx.rep)


def g_store(ctx):
    store.check(ctx.lib, ctx.rep)


def g_passwd(ctx):
    passwd.check(ctx.tool, ctx.rep)


def g_taint(ctx):
    taint.check(ctx.lib, ctx.rep)


def g_growth(ctx):
    growth.check(ctx.lib, ctx.rep)


GROUPS = {'growth': g_growth, 'stream': g_stream, 'decoder': g_decoder, 'encoder': g_encoder, 'handler': g_handler, 'messaging': g_messaging,
          'tasks': g_tasks, 'app': g_app, 'waits': g_waits, 'depth': g_depth, 'trie': g_trie, 'store': g_store, 'passwd': g_passwd, 'taint': g_taint}

PROPS = {
    'C01': ('stream', 'decoder'),
    'C02': ('stream', 'decoder', 'tasks'),
    'C03': ('stream', 'decoder', 'encoder'),
    'C04': ('stream', 'decoder'),
    'C05': ('stream', 'decoder'),
    'C06': ('stream', 'decoder'),
    'C07': ('stream', 'encoder', 'tasks'),
    'C08': ('stream', 'encoder'),
    'C09': ('stream', 'decoder'),
    'L01': ('handler', 'tasks'),
    'L02': ('tasks',),
    'L03': ('handler', 'messaging', 'trie'),
    'L04': ('handler', 'messaging', 'tasks'),
    'L05': ('handler', 'messaging', 'tasks'),
    'L06': ('handler', 'messaging', 'tasks'),
    'A01': ('handler', 'tasks'),
    'A02': ('handler', 'tasks'),
    'A03': ('store',),
    'A04': ('passwd', 'taint'),
    'A05': ('passwd',),
    'A06': ('passwd',),
    'M01': ('handler', 'messaging', 'tasks', 'trie'),
    'M02': ('handler', 'messaging', 'trie'),
    'M03': ('handler', 'messaging', 'trie'),
    'M04': ('handler', 'messaging', 'tasks', 'trie', 'stream', 'decoder'),
    'M05': ('handler', 'messaging', 'trie'),
    'M06': ('handler', 'messaging', 'tasks'),
    'R01': ('handler', 'messaging', 'tasks', 'trie', 'depth'),
    'R02': ('handler', 'messaging', 'depth'),
    'R03': ('handler', 'messaging', 'tasks', 'waits'),
    'R04': ('handler', 'messaging', 'tasks', 'app'),
    'R05': ('tasks', 'app'),
    'R06': ('growth', 'handler', 'messaging', 'tasks', 'trie', 'stream'),
    'S01': ('app',),
}

# fewest obligations seen on a tree where the property holds; fewer means that the rule lost its anchors
FLOOR = {'C01': 8, 'C02': 10, 'C03': 10, 'C04': 15, 'C05': 25, 'C06': 5, 'C07': 35, 'C08': 15, 'C09': 8,
         'L01': 10, 'L02': 6, 'L03': 15, 'L04': 7, 'L05': 15, 'L06': 12, 'A01': 5, 'A02': 12, 'A03': 12, 'A04': 20, 'A05': 9, 'A06': 6, 'M01': 18, 'M02': 18, 'M03': 20, 'M04': 14, 'M05': 6, 'M06': 10, 'R01': 10, 'R02': 60,
         'R03': 12, 'R04': 15, 'R05': 10, 'R06': 12, 'S01': 12}

DEC = 'The packet decoder is interpreted abstractly over the byte string a client sends (a symbolic string, any fragmentation), case ' \
      'by case for each packet type and number of remaining-length bytes, its loops by invariants inferred as a fixpoint. '
HAN = 'The dispatcher (the coroutine that receives client events) is interpreted abstractly, turn by turn, from an arbitrary state and ' \
      'for an arbitrary event, every suspension point included. '
MSG = 'The messaging task (the coroutine that receives requests) is interpreted abstractly, request by request, for arbitrary sessions ' \
      'and an arbitrary request. '
TRE = 'The operations of the subscription tree are interpreted abstractly for arbitrary trees, filters, topics and clients, nodes being ' \
      'identified by the way that led to them. '
CON = 'The tasks of a connection (accepting, reading, writing) are interpreted abstractly with packet reading and writing as single steps, ' \
      'through every suspension point, error and shutdown. '
TOOL = 'The password tool is interpreted abstractly from main for all arguments, file contents and results of file operations. '
EXPLAIN = {
    'L01': CON + 'The first event a connection hands over is the CONNECT it read, there is exactly one, and nothing precedes it. ' + HAN +
           'Sessions are registered while serving a CONNECT only.',
    'L02': CON + 'Every way out of the reading task after the CONNECT passes the report of the connection\'s end under its effective '
           'client id, or the delivery of a DISCONNECT, or the shutdown signal.',
    'L03': HAN + 'After DISCONNECT or the end of a current connection the session\'s end has been requested once and the connection is no '
           'longer current. ' + MSG + 'Ending removes the subscriptions and the session of that client, before it is answered.',
    'L04': HAN + 'Before a session is registered any earlier connection of the client id has been told to disconnect, its session ended, and '
           'its entry replaced. ' + CON + 'The writing task stops when told so.',
    'L05': HAN + 'Every path that serves a CONNECT sends exactly one CONNACK, to the connecting client, accepting only after the session was '
           'registered, refusing only with a disconnect. ' + MSG + 'Registering happens before it is answered. ' + CON + 'Each packet taken '
           'from the connection\'s queue is written.',
    'L06': CON + 'The writing task takes nothing more once told to disconnect; the reading task, once the CONNECT was handed over, waits for '
           'nothing but the next packet or the end of the writing task, at the same time, and reads no further after either ended; the sender '
           'of the connection\'s queue is owned by the reading task only. ' + HAN + MSG + 'The tables that can hold such a sender are enumerated '
           'from the types; the entry of a connection leaves both of them when it ends. No call keeps a value from being dropped.',
    'A01': HAN + 'Session, connection entry and accepting CONNACK are dominated by a successful authenticate of the user name and password of '
           'this CONNECT (or its having none). ' + CON + 'The CONNECT reaches the dispatcher unaltered.',
    'A02': HAN + 'Every effect of a packet is dominated by the test that the packet\'s connection is the accepted, current one of its client id.',
    'A03': 'Loading the password file and authenticating are interpreted abstractly for every file text, user name and password: every return '
           'of Ok is dominated by a verification of the given password against the parsed value that the store holds under the given name, '
           'every line becomes one entry split at its first colon, and no path fails or skips lines for another reason.',
    'A04': 'Whole-program information flow over the MIR of the broker (access paths; fields of its own types global; calls matched '
           'with returns; closures, futures, formatting traits and mutable borrows followed). Sources: every field and call result from '
           'which the password operand of verify_password is reached. Obligations: each log record, print, panic message, file and network '
           'write. ' + TOOL + 'Each print, panic, exit and file write of its runs.',
    'A05': TOOL + 'Every content that replaces the file is the old one with exactly the line of this user (by an anchored, escaped pattern) '
           'replaced by name, fresh salted hash of the given password and line break, or removed, or with that entry appended on a line '
           'of its own when the user has none; names with a colon or line break have been refused before.',
    'A06': TOOL + 'The password file itself is never opened for writing, removed or moved away; what replaces it, by one rename, is a '
           'file known to be another one, completely written and synced; every failed operation leads to a failing exit.',
    'M01': HAN + 'Every SUBSCRIBE, UNSUBSCRIBE and PINGREQ gets one matching reply with its packet id on its own connection, one code per '
           'filter in order, after its effect was confirmed. ' + MSG + 'The answers tell what was done.' + CON,
    'M02': TRE + 'For every node of a level the children under the level, under + and under # are followed exactly when they exist and the topic '
           'does not begin with $ at its first level; every node of every level is visited; the clients of the nodes after the last level, and '
           'of # nodes on the way, and no others are returned. ' + MSG + 'The topic and filters reach the tree unaltered.',
    'M03': TRE + 'Subscribing and unsubscribing go down one child per level of the filter, create only empty nodes, and change only the client '
           'list of the node of the last level: add the client when it is known to be absent, remove exactly it, for every filter. ' + MSG +
           'Client id and filters reach the tree unaltered, for every filter of a request.',
    'M04': HAN + 'A PUBLISH asks for the senders of its topic and sends each of them one message with topic and payload as published. ' + MSG +
           'The answer lists the sender of each match that has a session, once each. ' + CON + 'Packets are written as queued. ' + DEC + 'A topic '
           'with a wildcard is never accepted.',
    'M05': HAN + 'Deliveries have QoS 0, no packet id, DUP and RETAIN cleared. ' + MSG + 'The same for deliveries by the messaging task.',
    'M06': CON + 'Packets are handed over in the order read, by the reading task itself, with waiting sends. ' + HAN + 'Requests are handed over '
           'one at a time and confirmed before the next step; nothing is spawned.',
    'R01': HAN + MSG + CON + 'Every panic site reached by the shared tasks is an obligation: not reachable; no path leaves their loops except '
           'for shutdown or because every client task is gone. The cycles of the call graph below them are shown to have bounded depth, '
           'dropping a recursive type included.',
    'R03': 'From the call graph below every task: no call that blocks its thread (std file, socket, sleep and lock operations). From the '
           'waits each task can be suspended in and who has to act to end them: no cycle of tasks waiting for one another, and no shared '
           'task waiting for a single client to read.',
    'R04': 'The start of the broker is interpreted abstractly with symbolic settings: after the shutdown signal it is broadcast to every '
           'task that was started, all of them are joined before the report that the broker stopped, and no sender that a task waits '
           'to see closed is kept alive while joining. ' + HAN + MSG + CON + 'Each leaves its loop after the shutdown signal.',
    'R05': 'The start of the broker binds every configured address, with failures passed on. ' + CON + 'Accepting goes on after every '
           'outcome except shutdown; each connection is a task of its own.',
    'R06': 'Every queue made anywhere in the crate has a fixed capacity. In the fixpoints of the dispatcher, the messaging task and the '
           'accepting, reading and writing tasks, each call that makes a collection grow is attributed to the storage it acts on; storage '
           'that was there at the head of the loop that takes events may grow by the entry of an accepted CONNECT and of a registered session '
           'only. Both entries are gone at the end of every turn that ends the connection. The streams keep nothing but their buffer. In the '
           'subscription tree only subscribing makes anything grow, with each client at most once per node, and no node keeps a client that '
           'unsubscribed or left. ',
    'S01': 'Loading the settings is interpreted abstractly: the file, then the environment with the documented prefix and separator, are '
           'the sources merged, in this order, on every path; each failure is passed on; no setting has a default.',
    'R02': MSG + 'Each request is answered exactly once, on its own channel, after everything it asks for has been done. ' + HAN +
           'Each request carries a fresh reply channel, and its reply is awaited.',
    'C01': DEC + 'Every panic site, checked arithmetic and allocation reached in the decoder and the reading methods is an obligation: '
           'not reachable, no overflow, no size beyond the largest remaining length.',
    'C02': DEC + 'At every return of a packet the position in the stream equals the end of the declared length.',
    'C03': DEC + 'For each of the four encodings some packet type is read to the end for every value of the length bytes; a fifth byte '
           'never leads to a packet. The encoder is shown to write each length byte as the right base-128 digit with the right continuation bit.',
    'C04': DEC + 'At every return of a packet the possible first bytes are those MQTT 3.1.1 allows for it, and all of them are accepted; '
           'QoS 3 never gets through, QoS 0 to 2 do.',
    'C05': DEC + 'At every return of a packet each field equals the bytes at the position MQTT 3.1.1 assigns to it; optional fields are '
           'present exactly under their flag. The reading methods are shown to return the bytes at the current position.',
    'C06': DEC + 'Every text field is the value of a UTF-8 validation of exactly the bytes received.',
    'C07': 'The packet encoder is interpreted abstractly for every kind of packet the broker sends, with symbolic field values; each piece '
           'it appends has to be the next piece of the layout of MQTT 3.1.1, the length bytes the base-128 digits of the length that '
           'the layout implies. The writing methods are shown to append exactly their argument.',
    'C08': 'Each writing method of each byte stream is interpreted abstractly from an arbitrary buffer state and for every split of '
           'the data by the socket; at every return the buffer must hold exactly the bytes not handed over yet, in order, and the '
           'finishing method may only succeed with nothing left. The encoder finishes the stream before it reports success.',
    'C09': 'For every loop of the reading and writing methods and of the decoder a measure of bytes moved grows on each turn; no read follows '
           'one that may have returned 0 bytes, and none of them succeeds after it.',
}


class Ctx:
    def __init__(self, raw, tier):
        self.raw = raw
        self.tier = tier
        self.rep = Report()
        self.lib = Facts(raw['ratelmq'])
        self.tool = Facts(raw['ratelmq_passwd-bin'])
        self.done = set()
        self.lost = {}

    def need(self, g):
        if g not in self.done:
            self.done.add(g)
            try:
                GROUPS[g](self)
            except Exception as e:          # nothing shown: an obligation of every property that rests on this group
                traceback.print_exc()
                self.lost[g] = '%s: %s' % (type(e).__name__, e)


def run(pid, raw, tier, memo):
    ctx = memo.get('ctx')
    if ctx is None:
        ctx = memo['ctx'] = Ctx(raw, tier)
    for g in PROPS[pid]:
        ctx.need(g)
    for g in PROPS[pid]:
        if g in ctx.lost:
            ctx.rep.bad(pid, 'analysable', g, ctx.lost[g])
    return ctx.rep


TECHNIQUE = {}
NOTE = {}

NOT_APPLICABLE = {
    'K01': 'Needs run-time clocks, and the broker does not implement keep-alive supervision (keepalive_checker.rs is not wired in): '
           'there is no construct whose shape decides it.',
    'Q01': 'The broker does not implement the acknowledgement flows of QoS 1 and 2 nor persistent sessions; the property quantifies '
           'over histories across reconnections, which no static argument here bounds.',
    'W01': 'Retained messages and wills are not implemented by the broker (a documented limitation), so there is no code to decide it on.',
    'T01': 'Linearizability quantifies over interleavings of histories; its structural part (one dispatcher, requests handled one at a '
           'time) is claimed as M06 and R02.',
}
