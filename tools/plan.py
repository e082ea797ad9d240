"""What each check runs."""
import re
def _main(crate):
    def f(v): return sorted(set(re.findall(r'\bh_[a-z0-9_]+', open(f'{v}/harness/{crate}/src/main.rs').read())))
    return f
CRATES = {
    'rt': dict(entries=_main('rt'), prepare=['bash tools/tokio_sym.sh target/tokio-sym']),
    'cz': dict(entries=_main('cz')),
    'zoo': dict(entries=_main('zoo'), prepare=['python3 tools/zoo.py target/zoo_gen.rs']),
}
CRATES['ws'] = dict(entries=_main('ws'), prepare=['bash tools/tokio_sym.sh target/tokio-sym', 'bash tools/futures_sym.sh target/futures-util-sym'])
CRATES['dv'] = dict(entries=_main('dv'), prepare=['python3 tools/derive_lib.py target/derive_lib'])
def derive_reject(kinds):
    """a definition the derive has to accept, and does not: the error is about one of the generated definitions"""
    def f(crate, log):
        import os
        if crate != 'zoo': return None
        v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        gen = open(f'{v}/target/zoo_gen.rs').read().split('\n')
        for block in re.split(r'\n(?=error)', log):
            m = re.match(r'error[^\n]*', block)
            l = re.search(r'-->[^\n]*zoo_gen\.rs:(\d+):', block)
            if not m or not l: continue
            d = re.search(r'pub (?:struct|enum) ([A-Z])\w*', gen[int(l.group(1)) - 1])
            if d and d.group(1) in kinds and '#[derive' in gen[int(l.group(1)) - 1]:
                return f'the derive does not accept a definition: {m.group(0)}: {gen[int(l.group(1)) - 1]}'
        return None
    return f
def run(crate, entry, params=(), covers=(), bound='', **kw): return dict(crate=crate, entry=entry, params=list(params), covers=list(covers), bound=bound, **kw)
RT = 'the allocator always succeeds; free is a no-op (no memory reuse); HashMap keys are fixed; one thread'
SCHED = 'tokio 1.54.1 current-thread scheduler with the choice of the next ready task made symbolic; a task is polled to its next await, which is where the code under test can be interleaved on one thread'
PLAN = {
 'R01': dict(bounds='id texts of up to 3 symbolic characters, alone and after 18 or 19 fixed digits of 2^64-1; every combination of member order, kind of id, duplicate id and outer shape, keys of 4 symbolic characters; arbitrary byte texts up to 3 bytes after fixed prefixes; namespace/method texts of 2 symbolic characters', assumptions=[RT, 'the array form serde also reads is not a documented shape and not judged'], runs=[
    run('rt', 'h_request_id', [2, 0], [1, 2, 3]), run('rt', 'h_request_id', [2, 18], [1, 2, 3]), run('rt', 'h_request_id', [1, 19], [1, 2, 3]),
    run('rt', 'h_request_id', [2, 19], [3]), run('rt', 'h_request_shape', [], [1, 2, 3]), run('rt', 'h_request_text', [2], [1, 2]), run('rt', 'h_request_values', [2, 2], [1])],
    more=[run('rt', 'h_request_id', [4, 0], [1, 2, 3]), run('rt', 'h_request_id', [3, 17], [1, 2, 3]), run('rt', 'h_request_text', [3], [1, 2]), run('rt', 'h_request_values', [4, 3], [1])]),
 'R02': dict(bounds='ids in four symbolic ranges of 256 (0.., around 2^53, multiples of 2^32, ..2^64-1); data: null, bool, symbolic integers, ASCII strings up to 2 symbolic characters; one level of nesting in the thorough tier; error messages of 2-3 symbolic characters', assumptions=[RT], runs=[
    run('rt', 'h_response', [0], [1, 2]), run('rt', 'h_response_bad', [], [1]), run('rt', 'h_response_error', [2], [1, 2]), run('rt', 'h_mixed', [], [1])],
    more=[run('rt', 'h_response', [1], [1, 2]), run('rt', 'h_response_error', [3], [1, 2])]),
 'R03': dict(bounds='sequences of up to 2 (thorough: 3) execute requests, one of them with a symbolic 64-bit id and any method shape / argument list with at most one argument of unusual kind and argument values in six symbolic ranges of 256; namespace and method names of up to 5 symbolic characters', assumptions=[RT], runs=[
    run('rt', 'h_calls', [1], [1, 2, 3]), run('rt', 'h_calls', [2], [1, 2, 3]), run('rt', 'h_names', [5, 0], [1, 3]), run('rt', 'h_names', [0, 4], [1, 3]), run('rt', 'h_names', [5, 3], [3, 4]), run('rt', 'h_names', [4, 2], [3]), run('rt', 'h_names', [6, 3], [3, 4]), run('rt', 'h_args', [], [1])],
    more=[run('rt', 'h_calls', [3], [1, 2, 3]), run('rt', 'h_names', [5, 4], [1, 3])]),
 'R04': dict(bounds='22 methods over 5 namespaces (renamed, raw identifiers, equal type names, names used by the generated code, 0 to 12 arguments); symbolic argument digits', assumptions=[RT, 'what the generated function passes to request/subscribe is read off the generated text'], runs=[
    run('rt', 'h_dispatch', [], [1, 2]), run('rt', 'h_args', [], [1]), run('rt', 'h_names', [5, 0], [1, 3]), run('rt', 'h_names', [0, 4], [1, 3])]),
 'R05': dict(bounds='up to 3 (thorough: 4) actions (call, subscribe eager/lazy stream of up to 2 (1) items) by the client, interleaved in every way with the polls of the stream tasks', assumptions=[RT, SCHED], runs=[
    run('rt', 'h_streams', [3, 2], [1, 2, 9]), run('rt', 'h_mixed', [], [1])], more=[run('rt', 'h_streams', [4, 1], [1, 2, 9])]),
 'R06': dict(bounds='up to 3 (thorough: 4) actions (subscribe on two ids, cancel of those and of an unused id, dropping the table) interleaved in every way with the polls of stream tasks of 2 items', assumptions=[RT, SCHED], runs=[
    run('rt', 'h_cancel', [3, 2], [1, 3, 4, 9])], more=[run('rt', 'h_cancel', [4, 1], [1, 3, 4, 9])]),
 'R07': dict(bounds='3 (thorough: 4) actions of two clients, one of which goes away at any point, 6 (8) freely chosen polls; and through the proxy: one connection with calls and an endless stream going away after up to 4 (6) freely chosen polls; and through the WebSocket endpoint: a peer that closes, fails or cannot be written to', assumptions=[RT, SCHED], runs=[
    run('rt', 'h_gone', [3, 2, 6], [1, 2, 3, 5, 6, 9]), run('rt', 'h_proxy_gone', [4], [1, 2, 9]), run('ws', 'h_leave', [6], [1, 2, 9], optional=True)], more=[run('rt', 'h_gone', [4, 2, 7], [1, 2, 3, 5, 6, 9]), run('rt', 'h_proxy_gone', [6], [1, 2, 9])]),
 'R08': dict(bounds='3 (thorough: 4) sends (execute requests with 0 or 1 await and 1 or 2 answers, cancels, decode errors) on two connections, in every order and interleaving', assumptions=[RT, SCHED], runs=[
    run('rt', 'h_proxy_order', [3], [1, 2, 9])], more=[run('rt', 'h_proxy_order', [4], [1, 2, 9])]),
 'R09': dict(bounds='3 (thorough: 4) actions of two connections with equal ids (subscribe, cancel, call, disconnect one half after the other), 7 (8) freely chosen steps', assumptions=[RT, SCHED], runs=[
    run('rt', 'h_proxy_conns', [3, 2, 7], [1, 2, 3, 4, 9]), run('rt', 'h_proxy_gone', [4], [1, 2, 9])], more=[run('rt', 'h_proxy_conns', [4, 2, 8], [1, 2, 3, 4, 9])]),
 'R10': dict(bounds='3 (thorough: 4) events on one connection (requests with 1 or 2 answers, cancels, texts that are no request, binary/ping/pong frames, close frame, end, transport error, a peer that takes no frames for a while, one that cannot be written to any more) in every order, with 7 (7) freely chosen polls; 3 (4) events on two connections; single texts: three requests with 1 or 2 (3) symbolic ASCII bytes in every place, and any 1 to 3 (4) ASCII bytes; both orders in which select! polls', assumptions=[RT, SCHED, 'axum and the network are replaced by harness/ws/shims/axum: a WebSocket of which the harness plays the peer; tungstenite hands on texts as valid UTF-8', 'what a text encodes is decided by Request as serde_json reads it (R01)'], runs=[
    run('ws', 'h_frames', [], [1, 2]), run('ws', 'h_text', [1, 0, 60], [1, 2]), run('ws', 'h_text', [2, 10, 20], [1, 2]), run('ws', 'h_text', [3, 59, 1], [1]), run('ws', 'h_session', [2, 9], [1, 2, 3, 4, 5, 6, 7, 9]), run('ws', 'h_session', [3, 7], [1, 2, 3, 4, 5, 6, 7, 9]), run('ws', 'h_two', [3, 5], [4, 5, 9]), run('ws', 'h_leave', [6], [1, 2, 9])],
    more=[run('ws', 'h_text', [2, 0, 60], [1, 2]), run('ws', 'h_text', [4, 59, 1], [1]), run('ws', 'h_text', [3, 8, 6], [1]), run('ws', 'h_session', [4, 7], [1, 2, 3, 4, 5, 6, 7, 9]), run('ws', 'h_two', [4, 5], [4, 5, 9]), run('ws', 'h_leave', [9], [1, 2, 9])]),
}
CRATES['cl'] = dict(js='client.js')
PLAN['R11'] = dict(bounds='up to 9 (thorough: 11) steps of up to 2 calls and 2 streams of six methods of two namespaces with symbolic arguments: calls, subscribing and unsubscribing (one listener per stream, or two), closing stores, opening, failing and closing of sockets, timers, messages of three kinds with any id below 2^53 and symbolic data, texts that are no response, arguments zod refuses; the combinations of these are listed under runs', technique='symbolic execution of the generated TypeScript client (instrumented, in Node) with SMT-decided paths and assertions (Z3)', assumptions=['TypeScript types are removed by tsc; sockets, timers, clock, console and zod are stand-ins (js/client.js): zod accepts or refuses as chosen, a socket opens, fails, delivers and closes as HTML prescribes', 'a server answers calls with results or errors and streams with items or errors, and only ids it has been sent', 'requests whose connection fails before they are sent may be lost'], runs=[
    run('cl', 'session', [9, 2, 0, 32], [1, 2, 4, 6]), run('cl', 'session', [9, 1, 1, 32], [1, 2, 3, 4, 6]), run('cl', 'session', [4, 2, 2, 1], [1, 2, 3, 4, 5]), run('cl', 'session', [5, 1, 1, 19], [1, 2, 3, 4, 5]), run('cl', 'session', [6, 2, 2, 0], [1, 2, 3, 4, 5, 6]),
    run('cl', 'session', [6, 1, 2, 2], [1, 2, 3, 4, 5]), run('cl', 'session', [7, 1, 1, 40], [1, 2, 3, 4, 6]), run('cl', 'session', [8, 2, 0, 40], [1, 2, 4, 6]), run('cl', 'session', [7, 0, 2, 36], [1, 3, 4, 7]), run('cl', 'session', [6, 1, 1, 44], [1, 2, 3, 4, 7]), run('cl', 'session', [5, 1, 1, 24], [1, 2, 3, 4, 5])],
    more=[run('cl', 'session', [11, 2, 0, 32], [1, 2, 4, 6]), run('cl', 'session', [6, 1, 1, 24], [1, 2, 3, 4, 5]), run('cl', 'session', [7, 1, 2, 2], [1, 2, 3, 4, 5]), run('cl', 'session', [6, 1, 2, 37], [1, 2, 3, 4, 7]), run('cl', 'session', [6, 1, 1, 19], [1, 2, 3, 4, 5]), run('cl', 'session', [8, 1, 2, 32], [1, 2, 3, 4, 6]), run('cl', 'session', [10, 2, 0, 40], [1, 2, 4, 6])])
JS = 'numbers are compared as exact decimals, not as JavaScript doubles; zod is modelled by mz/src/zod.rs, TypeScript types by mz/src/ty.rs; a construct they do not know makes the check inconclusive'
PLAN.update({
 'S01': dict(bounds='none for the range: sign, 128-bit magnitude and presence of a fraction are symbolic; against serde_json: windows of 256 around every limit, in u64 and i64', assumptions=[RT, JS], runs=[
    run('cz', 'h_int_range', [], [1, 2]), run('cz', 'h_int_serde', [], [1, 2, 3])]),
 'S02': dict(bounds='every char; texts of 0 to 2 (thorough: 4) arbitrary chars; Ipv4 with one symbolic octet, Ipv6 with every pattern of zero segments and one symbolic segment value; floats: any sign and magnitude below 2^128 for the limits of the schema, a list of nine values for what serde writes; values of the other JSON kinds with symbolic content', assumptions=[RT, JS, 'NaN and infinities are not covered: serde writes null for them'], runs=[
    run('cz', 'h_char', [], [1]), run('cz', 'h_text', [0], [1]), run('cz', 'h_text', [1], [1]), run('cz', 'h_text', [2], [1]), run('cz', 'h_bool_unit', [], [1]), run('cz', 'h_float', [], [1, 2]), run('cz', 'h_ip', [], [1]), run('cz', 'h_kinds', [], [1, 2])],
    more=[run('cz', 'h_text', [3], [1]), run('cz', 'h_text', [4], [1])]),
 'S03': dict(bounds='every container, pointer and tuple of 1 to 30 elements, nested twice (seven of them three times), over a named type, a literal and a union whose names and texts have symbolic characters', assumptions=[RT, JS], runs=[
    run('cz', 'h_wrap', [], [1]), run('cz', 'h_wrap2', [], [1]), run('cz', 'h_wrap3', [], [1]), run('cz', 'h_tuples', [], [1]), run('cz', 'h_pointers', [], [2])]),
 'N01': dict(bounds='up to 2 (thorough: 3) types and 2 methods, registered in any order in namespaces with symbolic names of up to 2 out of 4 characters, with and without docs, interfaces and aliases, also with the definition of another one, or its name in another namespace; five backends; the methods of the backend of R03 through the macro', assumptions=[RT, JS], runs=[
    run('cz', 'h_generated', [2, 0, 1], [1, 2]), run('cz', 'h_generated', [1, 1], [1, 2, 3]), run('cz', 'h_generated', [0, 2, 1], [3]), run('rt', 'h_client', [], [1, 2])],
    more=[run('cz', 'h_generated', [2, 1, 1], [1, 2, 3]), run('cz', 'h_generated', [1, 2, 1], [1, 2, 3]), run('cz', 'h_generated', [3, 0], [1, 2])]),
 'N02': dict(bounds='up to 2 types and 1 method, or 1 and 2 (thorough: 3 types, or 2 and 2), registered in any order in namespaces with symbolic names of up to 2 out of 4 characters, also with the name or the definition of another one; seven namespaces and five backends', assumptions=[RT], runs=[
    run('cz', 'h_listings', [2, 0, 1], [1, 2, 4]), run('cz', 'h_listings', [1, 2, 1], [1, 2, 3, 4]), run('cz', 'h_listings', [2, 1], [1, 2, 3, 4])], more=[run('cz', 'h_listings', [3, 0, 1], [1, 2, 4]), run('cz', 'h_listings', [2, 2, 1], [1, 2, 3, 4])]),
 'N03': dict(bounds='methods and streams with 0 to 3 parameters, symbolic characters in namespace, method and parameter names; 30 methods with 0 to 12 parameters through the macro', assumptions=[RT, JS], runs=[
    run('cz', 'h_function', [], [1, 2]), run('cz', 'h_generated', [0, 2], [3]), run('rt', 'h_client', [], [1, 2])]),
})

DOC = 'the derive itself runs at compile time on the enumerated definitions; the code it emits is executed symbolically with serde_derive as the oracle for the same definition'
WIRE = 'a document is one the definition describes with one change: a key left out, renamed to a symbolic text of the same length, a symbolic key added (of the length of any name in the definition), a value of another JSON kind, a variant or tag name replaced by a symbolic text, an array shortened or lengthened'
LENIENT = 'not judged, because serde documents more than it means: arrays in place of objects, numbers in place of variant names, null for an Option, further keys beside an external variant or content'
def dv(*a): return run('dv', *a, optional=True)
PLAN.update({
 'D01': dict(bounds='128 structs of up to 3 fields covering every kind of field attribute (23) under every container attribute (12); 5 structs with flattened fields; ' + WIRE, assumptions=[RT, JS, DOC, LENIENT], on_reject=derive_reject('S'), runs=[
    run('zoo', 'h_keys', [], [1, 2]), run('zoo', 'h_named', [1], [1, 2]), run('zoo', 'h_flatten', [1], [1, 2]), run('zoo', 'h_flatten_extend'), dv('h_structs', [4], [1]), dv('h_struct_names', [1], [1])],
    more=[run('zoo', 'h_named', [1, 0, 1], [1, 2]), run('zoo', 'h_named', [2], [1, 2], secs=2400), run('zoo', 'h_flatten', [2], [1, 2])]),
 'D02': dict(bounds='the 128 structs of D01, 80 tuple structs of up to 5 elements, 153 enums; ' + WIRE, assumptions=[RT, JS, DOC, LENIENT, 'an optional element of a tuple is taken as one that may be missing'], on_reject=derive_reject('ST'), runs=[
    run('zoo', 'h_keys', [], [1, 2]), run('zoo', 'h_named', [1], [1, 2]), run('zoo', 'h_tuple', [1], [1, 2]), run('zoo', 'h_enum', [1], [1, 2]), dv('h_structs', [4], [1]), dv('h_tuples', [4], [1]), dv('h_variants', [2, 1], [1]), dv('h_neutral', [], [1])],
    more=[dv('h_variants', [3, 2], [1]), run('zoo', 'h_named', [2], [1, 2], secs=2400), run('zoo', 'h_tuple', [2], [1, 2]), dv('h_structs', [6], [1]), dv('h_tuples', [6], [1])]),
 'D03': dict(bounds='153 enums of up to 3 variants covering every kind of variant (29) under every representation (6) and container attribute (11); ' + WIRE, assumptions=[RT, JS, DOC, LENIENT], on_reject=derive_reject('E'), runs=[
    run('zoo', 'h_options', [], [1]), run('zoo', 'h_enum', [1], [1, 2]), dv('h_enums', [3], [1]), dv('h_variants', [3, 1], [1]), dv('h_neutral', [], [1]), dv('h_enum_names', [0], [1, 2])],
    more=[dv('h_variants', [4, 2], [1]), run('zoo', 'h_enum', [1, 0, 1], [1, 2], secs=2400), run('zoo', 'h_enum', [2], [1, 2], secs=2400)]),
 'D04': dict(bounds='80 tuple structs of up to 5 elements, 37 transparent structs and types with from or try_from (7 sources, 4 shapes); ' + WIRE, assumptions=[RT, JS, DOC, LENIENT, 'an optional element of a tuple is taken as one that may be missing'], on_reject=derive_reject('TPC'), runs=[
    run('zoo', 'h_tuple', [1], [1, 2]), run('zoo', 'h_wrapped', [1], [1, 2]), dv('h_tuples', [4], [1]), dv('h_neutral', [], [1])],
    more=[run('zoo', 'h_tuple', [2], [1, 2]), run('zoo', 'h_wrapped', [2], [1, 2])]),
 'D05': dict(bounds='383 derived types of every kind in one namespace, 9 kinds of (renamed) types in each of 6 namespaces (plain, renamed, in modules, raw identifiers)', assumptions=[RT, JS, DOC], on_reject=derive_reject('STPCE'), runs=[
    run('zoo', 'h_refs', [], [1]), run('zoo', 'h_more_refs', [], [1]), run('zoo', 'h_registered', [], [1]), run('rt', 'h_client', [], [1, 2]), dv('h_renamed', [2], [1]), dv('h_renamed', [2, 1], [1]), dv('h_namespace_names', [2], [1])],
    more=[dv('h_renamed', [4], [1]), dv('h_namespace_names', [3], [1])]),
 'S04': dict(bounds='15 recursive types (through every container, pointer, enum representation, tuple, from and transparent), the 383 types of D01 to D04; containers over named types with symbolic names as in S03; recursive documents up to depth 3 in the thorough tier', assumptions=[RT, JS, DOC], on_reject=derive_reject('STPCE'), runs=[
    run('zoo', 'h_structure', [], [1]), run('zoo', 'h_lazy', [], [1, 2]), run('zoo', 'h_refs', [], [1]), run('cz', 'h_wrap', [], [1]), run('cz', 'h_wrap2', [], [1]), run('cz', 'h_tuples', [], [1]), run('cz', 'h_pointers', [], [2])],
    more=[run('zoo', 'h_recursive', [1], [1, 2]), run('cz', 'h_wrap3', [], [1])]),
})

LIB = 'the text of the derive in /repo is compiled as a library (only the attributes that make functions macros are removed; proc_macro_error and proc_macro_crate are stand-ins that end the run, or say that the crate is called zod) and executed symbolically; what it writes is evaluated by harness/dv/src/eval.rs, a construct that does not know makes the check inconclusive'
PLAN.update({
 'D06': dict(bounds='names of up to 2 (thorough: 3) characters out of all of ASCII, or one of those next to one of 12 characters beyond ASCII (control, line separators, blanks, combining, outside of the BMP), in every place a name can have: three fields of a struct, variants of six kinds, fields of variants, tag and content under the four representations; doc comments as in D08', assumptions=[RT, LIB, 'the names of types are those of Rust, and serde(rename) of a type is one of an identifier'], runs=[
    run('dv', 'h_struct_names', [2], [1]), run('dv', 'h_struct_names', [1, 1], [1]), run('dv', 'h_enum_names', [1], [1, 2]), run('dv', 'h_enum_names', [0, 1], [1, 2]), run('dv', 'h_docs', [2, 1], [1, 2, 3]), run('dv', 'h_docs', [1, 2, 1], [1, 2, 3])],
    more=[run('dv', 'h_struct_names', [3], [1]), run('dv', 'h_enum_names', [2], [1, 2]), run('dv', 'h_enum_names', [1, 1], [1, 2]), run('dv', 'h_docs', [2, 2], [1, 2, 3]), run('dv', 'h_docs', [1, 4], [1, 2, 3])]),
 'D07': dict(bounds='structs of up to 4 (thorough: 6) fields, tuple structs of up to 4 (7) elements, enums of up to 3 (4) variants with every combination of 3 to 7 kinds of field attribute, 4 container attributes, 6 kinds of variant and 4 representations; 71 unsupported or malformed definitions with symbolic attribute names of 3 and texts of up to 1 (2) characters; the 398 definitions of D01 to D04 through the compiler', assumptions=[RT, LIB, 'generic types, deserialize_with, remote and identifier enums are not covered'], on_reject=derive_reject('STPCE'), runs=[
    run('dv', 'h_structs', [4], [1, 6]), run('dv', 'h_tuples', [4], [1, 5, 6]), run('dv', 'h_enums', [3], [1, 5, 6]), run('dv', 'h_bad', [1], [5, 6]), run('zoo', 'h_options', [], [1])],
    more=[run('dv', 'h_structs', [6], [1, 6]), run('dv', 'h_tuples', [7], [1, 5, 6]), run('dv', 'h_enums', [4], [1, 5, 6]), run('dv', 'h_bad', [2], [5, 6])]),
 'D08': dict(bounds='up to 2 (thorough: 3) doc attributes of up to 2 (3) characters out of blanks, line breaks, `*`, `/`, quotes, backslash, brace and a letter, on structs, enums and namespaces, and (up to 1 (2) characters) with one of 8 other attributes in any place', assumptions=[RT, LIB], runs=[
    run('dv', 'h_docs', [2, 2], [1, 2, 3]), run('dv', 'h_docs', [3, 1], [1, 2, 3]), run('dv', 'h_docs', [2, 1, 1], [1, 2, 3])],
    more=[run('dv', 'h_docs', [2, 2, 1], [1, 2, 3]), run('dv', 'h_docs', [3, 2], [1, 2, 3]), run('dv', 'h_docs', [2, 3], [1, 2, 3]), run('dv', 'h_docs', [1, 5], [1, 2, 3])]),
})
