"""Contracts of the preferences (C24).

The state is the content of the file.  Whatever the objects hold (they may be stale: another object may have written
since), each operation is a function of the content of the file: a history of operations on any number of objects is
decided by composing these contracts.  Keys are strings, values JSON values; reading means prefs[key]."""
from rtv.api import *
FILES = ['map', 'absent', 'empty', 'not json', 'number', 'list', 'null']

def preferences(g, stale=True):
    """a preferences object, and what its file holds (a missing or corrupted file counts as empty)"""
    g.on_system(g.choice('system', ['Linux', 'Darwin', 'Windows', 'other']) if stale != 'linux' else 'Linux')
    P = g.ns.Preferences()
    m = file_content(g, P.path)
    if stale: g.set_contents(P, g.mapping('stale', acceptable=False))
    return P, m

def file_content(g, path, kinds=FILES):
    k = g.choice('file', kinds)
    m = g.mapping('m')
    g.put_text(path, {'number': 3, 'list': [1, 2], 'null': None}.get(k, k), m)
    return m if k == 'map' else g.empty_map()

def check_file(g, name, P, m):
    """the file holds m; nothing at all or anything unreadable when m is empty"""
    got = g.text_map(P.path)
    g.map_eq(name, g.empty_map() if got is None else got, m)

@harness('C24', under=['Preferences.__getitem__', 'Preferences.readFromDisk', 'Preferences.writeToDisk'], cases=200)
def preference_read(g):
    """what the file holds, whatever the object held; refused when it is not there; the file is unchanged"""
    P, m = preferences(g)
    k = g.text_key('k')
    r = g.attempt(lambda: P[k])
    if g.t(g.map_has(m, k)):
        g.check('no refusal', r.ok); g.check('the value in the file', g.equal(r.value, g.map_get(m, k)))
    else: g.check('refused: not there', r.raised(KeyError))
    check_file(g, 'the file is unchanged', P, m)
    g.map_eq('the object agrees with the file', g.contents(P), m)

@harness('C24', under=['Preferences.__setitem__', 'Preferences.readFromDisk', 'Preferences.writeToDisk'], cases=200)
def preference_written(g):
    """the file holds the value, and the other preferences it held; so does the object"""
    P, m = preferences(g)
    k, v = g.text_key('k'), g.json_value('v')
    P[k] = v
    want = g.with_item(m, k, v)
    g.map_eq('in the file', g.text_map(P.path), want)
    g.map_eq('in the object', g.contents(P), want)

@harness('C24', under=['Preferences.__setitem__', 'Preferences.writeToDisk'], cases=200)
def unacceptable_value(g):
    """a value that cannot be written is refused; the file is unchanged, and so are the preferences read afterwards"""
    P, m = preferences(g)
    k = g.text_key('k')
    r = g.attempt(lambda: P.__setitem__(k, g.json_value('v', acceptable=False)))
    g.check('refused', r.raised(TypeError))
    check_file(g, 'the file is unchanged', P, m)
    k2 = g.text_key('k2')
    r = g.attempt(lambda: P[k2])
    g.check('read afterwards', r.ok and g.equal(r.value, g.map_get(m, k2)) if g.t(g.map_has(m, k2)) else r.raised(KeyError))

@harness('C24', under=['Preferences.resetPreferences', 'Preferences.writeToDisk'], cases=200)
def preferences_reset(g):
    P, m = preferences(g)
    P.resetPreferences()
    check_file(g, 'no preference in the file', P, g.empty_map())
    g.map_eq('none in the object', g.contents(P), g.empty_map())
    k = g.text_key('k')
    g.check('none read', g.attempt(lambda: P[k]).raised(KeyError))
    g.check('none read by others', g.attempt(lambda: g.ns.Preferences()[k]).raised(KeyError))

@harness('C24', under=['Preferences.__init__', 'Preferences.readFromDisk', 'Preferences.update'], cases=200)
def preferences_object(g):
    """a new object holds what the file does; preferences given are added"""
    P, m = preferences(g)
    how = g.choice('given', ['nothing', 'dictionary', 'names', 'pairs'])
    want = m
    if how == 'nothing': Q = g.ns.Preferences()
    elif how == 'names':
        v, w = g.json_value('v'), g.json_value('w')
        Q = g.ns.Preferences(mode=v, other=w); want = g.with_item(g.with_item(m, 'mode', v), 'other', w)
    else:
        k1, k2, v, w = g.text_key('k1'), g.text_key('k2'), g.json_value('v'), g.json_value('w')
        Q = g.ns.Preferences([(k1, v), (k2, w)]) if how == 'pairs' else g.ns.Preferences(g.with_item(g.with_item(g.empty_map(), k1, v), k2, w))
        want = g.with_item(g.with_item(m, k1, v), k2, w)
    g.check('same file', Q.path == P.path)
    check_file(g, 'in the file', Q, want)
    g.map_eq('in the object', g.contents(Q), want)

@harness('C24', under=['Preferences.update'], cases=200)
def preferences_updated(g):
    """several preferences at once"""
    P, m = preferences(g)
    how = g.choice('given', ['nothing', 'dictionary', 'names', 'pairs'])
    want = m
    if how == 'nothing': P.update()
    elif how == 'names':
        v, w = g.json_value('v'), g.json_value('w')
        P.update(mode=v, other=w); want = g.with_item(g.with_item(m, 'mode', v), 'other', w)
    else:
        k1, k2, v, w = g.text_key('k1'), g.text_key('k2'), g.json_value('v'), g.json_value('w')
        P.update([(k1, v), (k2, w)] if how == 'pairs' else g.with_item(g.with_item(g.empty_map(), k1, v), k2, w))
        want = g.with_item(g.with_item(m, k1, v), k2, w)
    check_file(g, 'in the file', P, want)

@harness('C24', under=['Preferences.__setitem__', 'Preferences.__getitem__'], cases=200)
def two_objects(g):
    """what one object sets is what the other reads, and the other preferences are kept"""
    P, m = preferences(g)
    Q = g.ns.Preferences() if g.choice('other', ['made before', 'same']) == 'made before' else P
    k, v, k2, v2, k3 = g.text_key('k'), g.json_value('v'), g.text_key('k2'), g.json_value('v2'), g.text_key('k3')
    P[k] = v
    Q[k2] = v2
    want = g.with_item(g.with_item(m, k, v), k2, v2)
    for name, O in (('the first', P), ('the second', Q), ('a new one', g.ns.Preferences())):
        r = g.attempt(lambda: O[k3])
        if g.t(g.map_has(want, k3)): g.check('read by ' + name, r.ok and g.equal(r.value, g.map_get(want, k3)))
        else: g.check('not there for ' + name, r.raised(KeyError))

@harness('C24', mode='con', cases=150)
def histories_of_preferences(g):
    """bounded: random histories of several objects, against a dictionary; damage to the file in between"""
    r = g.rng
    P = [g.ns.Preferences()]
    P[0].resetPreferences()
    others = g.folder(P[0].path)
    m = {}
    for _ in range(r.randrange(1, 25)):
        op = r.choice(['set', 'set', 'get', 'get', 'new', 'reset', 'bad', 'damage', 'update', 'delete file'])
        p = r.choice(P); k = g.text_key('k')
        if op == 'set': v = g.random_json(); p[k] = v; m[k] = v
        elif op == 'update': n = g.mapping('n'); p.update(n); m.update(n)
        elif op == 'new': P.append(g.ns.Preferences())
        elif op == 'reset' and r.random() < 0.4: p.resetPreferences(); m = {}
        elif op == 'bad': g.check('refused', g.attempt(lambda: p.__setitem__(k, object())).raised(TypeError))
        elif op == 'damage' and r.random() < 0.3: g.put_text(p.path, r.choice(['not json', 'empty', 3])); m = {}
        elif op == 'delete file' and r.random() < 0.3: g.put_text(p.path, 'absent'); m = {}
        for o in P:
            for k in g.TEXTS:
                a = g.attempt(lambda: o[k])
                g.check('read back', a.ok and a.value == m[k] and type(a.value) is type(m[k]) if k in m else a.raised(KeyError))
    g.check('only its own file', g.folder(P[0].path) == others)
    P[0].resetPreferences()
