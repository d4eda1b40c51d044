"""Compile-fail witnesses, each with a compiling twin.

A case is (id, property, reject, accept, codes): two bodies of a function.  `reject` must not type-check,
and only with one of the given error codes; `accept` differs by the offending part and must.
"""

BORROW = ('E0505', 'E0597', 'E0716', 'E0515', 'E0502', 'E0499', 'E0506', 'E0503', 'E0713', 'E0712', 'E0521', 'lifetime')
TRAIT = ('E0277',)

PRE = '''
#![allow(unused, dead_code)]
use papaya::*;
use seize::{Guard, LocalGuard, OwnedGuard, Collector};
use std::cell::Cell;
use std::collections::hash_map::RandomState;
use std::rc::Rc;
use std::sync::MutexGuard;
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn used<T>(_: T) {}
struct SendOnly(Cell<u8>);
struct SyncOnly(std::marker::PhantomData<MutexGuard<'static, u8>>);
struct Neither(Rc<u8>);
struct Both(u8);
// a guard type that is Sync or Send on its own terms
#[derive(Clone)]
struct SyncHasher(RandomState);
'''


def cases():
    r = []

    def trait(id, bad, good):
        r.append((id, 'P01', bad, good, TRAIT))

    # --- auto traits of the collections
    for kind, fam in (('HashMap', '{k}, {v}, {s}'), ('HashSet', '{k}, {s}')):
        ty = 'papaya::' + kind + '<' + fam + '>'

        def t(k='Both', v='Both', s='Both', ty=ty):
            return ty.format(k=k, v=v, s=s)
        params = ['k', 'v', 's'] if kind == 'HashMap' else ['k', 's']
        for p in params:
            trait('%s_send_%s' % (kind, p), 'send::<%s>();' % t(**{p: 'SyncOnly'}), 'send::<%s>();' % t(**{p: 'SendOnly'}))
            trait('%s_sync_%s_sync' % (kind, p), 'sync::<%s>();' % t(**{p: 'SendOnly'}), 'sync::<%s>();' % t(**{p: 'Both'}))
            trait('%s_send_%s_rc' % (kind, p), 'send::<%s>();' % t(**{p: 'Neither'}), 'send::<%s>();' % t(**{p: 'Both'}))
            trait('%s_sync_%s_rc' % (kind, p), 'sync::<%s>();' % t(**{p: 'Neither'}), 'sync::<%s>();' % t(**{p: 'Both'}))
            if p != 's':
                # removed keys and values may be dropped by another thread
                trait('%s_sync_%s_send' % (kind, p), 'sync::<%s>();' % t(**{p: 'SyncOnly'}), 'sync::<%s>();' % t(**{p: 'Both'}))
        trait('%s_sync_hasher_sync_only' % kind, 'sync::<%s>();' % t(s='SendOnly'), 'sync::<%s>();' % t(s='SyncOnly'))
        # the pinned views
        ref = kind + 'Ref'
        rt = 'papaya::' + ref + "<'static, " + fam + ', {g}>'

        def u(k='Both', v='Both', s='Both', g="OwnedGuard<'static>", rt=rt):
            return rt.format(k=k, v=v, s=s, g=g)
        trait('%s_send_local' % ref, 'send::<%s>();' % u(g="LocalGuard<'static>"), 'send::<%s>();' % u())
        trait('%s_sync_local' % ref, 'sync::<%s>();' % u(g="LocalGuard<'static>"), 'sync::<%s>();' % u())
        for p in params:
            for w in ('send', 'sync'):
                trait('%s_%s_%s' % (ref, w, p), '%s::<%s>();' % (w, u(**{p: 'SendOnly'})), '%s::<%s>();' % (w, u()))
                if p != 's':
                    trait('%s_%s_%s_so' % (ref, w, p), '%s::<%s>();' % (w, u(**{p: 'SyncOnly'})), '%s::<%s>();' % (w, u()))
    # --- iterators: share keys, values and guard
    for it, fam in (('Iter', '{k}, {v}, {g}'), ('Keys', '{k}, {v}, {g}'), ('Values', '{k}, {v}, {g}')):
        ty = "papaya::" + it + "<'static, " + fam + '>'

        def w(k='Both', v='Both', g="OwnedGuard<'static>", ty=ty):
            return ty.format(k=k, v=v, g=g)
        for tr in ('send', 'sync'):
            for p in ('k', 'v'):
                trait('%s_%s_%s' % (it, tr, p), '%s::<%s>();' % (tr, w(**{p: 'SendOnly'})), '%s::<%s>();' % (tr, w()))
            trait('%s_%s_g' % (it, tr), '%s::<%s>();' % (tr, w(g="LocalGuard<'static>")), '%s::<%s>();' % (tr, w()))
    ty = "<&'static papaya::HashSetRef<'static, {k}, RandomState, {g}> as IntoIterator>::IntoIter"
    for tr in ('send', 'sync'):
        trait('SetIter_%s_k' % tr, 'fn f<T: %s, I>(_: I) where I: FnOnce() -> T {} ; let s: papaya::HashSet<KeyNotSync> = papaya::HashSet::new(); let g = s.owned_guard(); f(|| s.iter(&g));' % tr.capitalize(),
              'fn f<T: %s, I>(_: I) where I: FnOnce() -> T {} ; let s: papaya::HashSet<KeySync> = papaya::HashSet::new(); let g = s.owned_guard(); f(|| s.iter(&g));' % tr.capitalize())
        trait('SetIter_%s_g' % tr, 'fn f<T: %s>(_: T) {} let s: papaya::HashSet<KeySync> = papaya::HashSet::new(); let g = s.guard(); f(s.iter(&g));' % tr.capitalize(),
              'fn f<T: %s>(_: T) {} let s: papaya::HashSet<KeySync> = papaya::HashSet::new(); let g = s.owned_guard(); f(s.iter(&g));' % tr.capitalize())
    # spawning: what a program actually does
    trait('spawn_rc_value', 'let m: std::sync::Arc<papaya::HashMap<u8, Rc<u8>>> = Default::default(); std::thread::spawn(move || { m.pin().len() });',
          'let m: std::sync::Arc<papaya::HashMap<u8, u8>> = Default::default(); std::thread::spawn(move || { m.pin().len() });')
    trait('spawn_cell_key_shared', 'let m: papaya::HashMap<u8, Cell<u8>> = Default::default(); std::thread::scope(|s| { s.spawn(|| { m.pin().len() }); });',
          'let m: papaya::HashMap<u8, u8> = Default::default(); std::thread::scope(|s| { s.spawn(|| { m.pin().len() }); });')
    trait('spawn_set_cell', 'let m: papaya::HashSet<Rc<u8>> = Default::default(); std::thread::scope(|s| { s.spawn(|| { m.pin().len() }); });',
          'let m: papaya::HashSet<u8> = Default::default(); std::thread::scope(|s| { s.spawn(|| { m.pin().len() }); });')
    trait('move_local_pin', 'let m: papaya::HashMap<u8, u8> = Default::default(); let p = m.pin(); std::thread::scope(|s| { s.spawn(move || { p.len() }); });',
          'let m: papaya::HashMap<u8, u8> = Default::default(); let p = m.pin_owned(); std::thread::scope(|s| { s.spawn(move || { p.len() }); });')

    # ------------------------------------------------------------------ P02
    def b(id, bad, good):
        r.append((id, 'P02', bad, good, BORROW))
    MAP = 'let map: papaya::HashMap<String, String> = papaya::HashMap::new(); '
    SET = 'let map: papaya::HashSet<String> = papaya::HashSet::new(); '
    S = 'String::new()'
    mapops = {
        'get': 'X.get("a"G)',
        'get_key_value': 'X.get_key_value("a"G)',
        'insert': 'X.insert(%s, %sG)' % (S, S),
        'try_insert': 'X.try_insert(%s, %sG)' % (S, S),
        'try_insert_ok': 'X.try_insert(%s, %sG).ok()' % (S, S),
        'try_insert_err': 'X.try_insert(%s, %sG).err().map(|e| e.current)' % (S, S),
        'try_insert_with': 'X.try_insert_with(%s, || %sG)' % (S, S),
        'get_or_insert': 'X.get_or_insert(%s, %sG)' % (S, S),
        'get_or_insert_with': 'X.get_or_insert_with(%s, || %sG)' % (S, S),
        'update': 'X.update(%s, |v| v.clone()G)' % S,
        'update_or_insert': 'X.update_or_insert(%s, |v| v.clone(), %sG)' % (S, S),
        'update_or_insert_with': 'X.update_or_insert_with(%s, |v| v.clone(), || %sG)' % (S, S),
        'compute': 'X.compute(%s, |e| Operation::<String, ()>::RemoveG)' % S,
        'remove': 'X.remove("a"G)',
        'remove_entry': 'X.remove_entry("a"G)',
        'remove_if': 'X.remove_if("a", |_, _| trueG)',
        'iter': 'X.iter(G0)',
        'iter_next': 'X.iter(G0).next()',
        'keys': 'X.keys(G0)',
        'keys_next': 'X.keys(G0).next()',
        'values': 'X.values(G0)',
        'values_next': 'X.values(G0).next()',
    }
    setops = {
        'get': 'X.get("a"G)',
        'iter': 'X.iter(G0)',
        'iter_next': 'X.iter(G0).next()',
    }
    for fam, DECL, ops in (('map', MAP, mapops), ('set', SET, setops)):
        for n, e in ops.items():
            for gk in ('guard', 'owned_guard'):
                x = e.replace('X', 'map').replace('G0', '&guard').replace('G', ', &guard')
                x = x.replace('&, &', '&')
                d = DECL + 'let %s guard = map.%s(); let r = %s; '
                b('%s_%s_%s_drop_guard' % (fam, n, gk), d % ('', gk, x) + 'drop(guard); used(r);', d % ('', gk, x) + 'used(r); drop(guard);')
                b('%s_%s_%s_refresh' % (fam, n, gk), d % ('mut', gk, x) + 'guard.refresh(); used(r);',
                  d % ('mut', gk, x) + 'used(r); guard.refresh();')
                b('%s_%s_%s_drop_map' % (fam, n, gk), d % ('', gk, x) + 'drop(map); used(r);', d % ('', gk, x) + 'used(r); drop(guard); drop(map);')
            for pin in ('pin', 'pin_owned'):
                x = e.replace('X', 'p').replace('G0', '').replace('G', '')
                d = DECL + 'let p = map.%s(); let r = %s; ' % (pin, x)
                b('%s_%s_%s_drop_view' % (fam, n, pin), d + 'drop(p); used(r);', d + 'used(r); drop(p);')
                b('%s_%s_%s_drop_map' % (fam, n, pin), d + 'drop(map); used(r);', d + 'used(r); drop(p); drop(map);')
        # the compute closure sees a borrowed entry
        for gk in ('guard', 'owned_guard', 'pin', 'pin_owned'):
            b('%s_%s_outlives' % (fam, gk), 'let guard = { %s map.%s() }; used(guard);' % (DECL, gk), '%s let guard = { map.%s() }; used(guard);' % (DECL, gk))
            b('%s_%s_move_map' % (fam, gk), '%s let guard = map.%s(); let other = map; used(guard);' % (DECL, gk), '%s let guard = map.%s(); used(guard); let other = map;' % (DECL, gk))
        b('%s_into_iter_view' % fam, '%s let p = map.pin(); let r = (&p).into_iter(); drop(p); used(r);' % DECL,
          '%s let p = map.pin(); let r = (&p).into_iter(); used(r); drop(p);' % DECL)
    b('compute_closure_escape', MAP + 'let guard = map.guard(); let mut esc: Option<&\'static String> = None; map.compute(String::new(), |e| { esc = e.map(|x| x.1); Operation::<String, ()>::Remove }, &guard); used(esc);',
      MAP + 'let guard = map.guard(); let mut esc: Option<&String> = None; map.compute(String::new(), |e| { esc = e.map(|x| x.1); Operation::<String, ()>::Remove }, &guard); used(esc);')
    # closures that only borrow the entry for the call
    for n, call in (('retain', 'map.retain(|k, v| { esc = Some(v); true }, &guard);'),
                    ('remove_if', 'map.remove_if("a", |k, v| { esc = Some(v); true }, &guard);')):
        b('closure_escape_%s' % n, MAP + 'let mut esc: Option<&String> = None; { let guard = map.guard(); %s } used(esc);' % call,
          MAP + 'let guard = map.guard(); let mut esc: Option<String> = None; { %s } used(esc);' % call.replace('Some(v)', 'Some(v.clone())'))
    b('closure_escape_update', MAP + 'let esc: Cell<Option<&String>> = Cell::new(None); { let guard = map.guard(); map.update(String::new(), |v| { esc.set(Some(v)); v.clone() }, &guard); } used(esc);',
      MAP + 'let esc: Cell<Option<String>> = Cell::new(None); { let guard = map.guard(); map.update(String::new(), |v| { esc.set(Some(v.clone())); v.clone() }, &guard); } used(esc);')
    # contents may not be shorter lived than the map, and the map is invariant in them
    b('contents_key', 'let map: papaya::HashMap<&str, u8> = papaya::HashMap::new(); { let s = String::new(); map.pin().insert(&s, 1); } map.pin().len();',
      'let s = String::new(); let map: papaya::HashMap<&str, u8> = papaya::HashMap::new(); { map.pin().insert(&s, 1); } map.pin().len();')
    b('contents_value', 'let map: papaya::HashMap<u8, &str> = papaya::HashMap::new(); { let s = String::new(); map.pin().insert(1, &s); } map.pin().len();',
      'let s = String::new(); let map: papaya::HashMap<u8, &str> = papaya::HashMap::new(); { map.pin().insert(1, &s); } map.pin().len();')
    b('contents_set', 'let map: papaya::HashSet<&str> = papaya::HashSet::new(); { let s = String::new(); map.pin().insert(&s); } map.pin().len();',
      'let s = String::new(); let map: papaya::HashSet<&str> = papaya::HashSet::new(); { map.pin().insert(&s); } map.pin().len();')
    for n, ty in (('value', 'papaya::HashMap<u8, &{l} str>'), ('key', 'papaya::HashMap<&{l} str, u8>'), ('set', 'papaya::HashSet<&{l} str>')):
        a1, a2 = ty.format(l="'static"), ty.format(l="'a")
        b('invariant_%s' % n, "fn f<'a>(m: &'a %s) -> &'a %s { m }" % (a1, a2), "fn f<'a>(m: &'a %s) -> &'a %s { m }" % (a1, a1))
    r2 = []
    for c in r:
        if c is not None:
            r2.append(c)
    return r2


PRE += '''
#[derive(PartialEq, Eq, Hash)]
struct KeySync(u8);
struct KeyNotSync(Cell<u8>);
impl PartialEq for KeyNotSync { fn eq(&self, o: &Self) -> bool { self.0.get() == o.0.get() } }
impl Eq for KeyNotSync {}
impl std::hash::Hash for KeyNotSync { fn hash<H: std::hash::Hasher>(&self, h: &mut H) {} }
'''
