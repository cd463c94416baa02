from sa.equiv import *

ID = 'C14'
PROP = {
    'title': 'Ordered collections stay consistent under any sequence of changes',
    'statement': 'A collection of movers, weatherers, spills, environment objects or outputters behaves like a list of distinct, '
                 'typed objects with ids: after any sequence of add, remove, replace, clear and update, iteration, length, '
                 'membership, index, lookup by id and by (also negative) position and slices all agree, insertion order is kept, '
                 'a replacement keeps its position, adding an object twice keeps one, objects of a wrong type are rejected, an '
                 'unknown id or position is an error, and each add, remove or replace notifies the registered callbacks exactly once.',
    'quantifier': {'over': ['histories', 'inputs'], 'text': 'every history of collection operations'},
    'why_tests_cant': 'The representation (list with holes plus index map) only shows defects after particular sequences of '
                      'operations; tests sample a few short ones.',
    'anchors': {'files': ['py_gnome/gnome/utilities/orderedcollection.py'],
                'mechanism': ['OrderedCollection']},
}
TECHNIQUE = ('contract comparison of gated effect summaries of every operation of the collection against a reference for its '
             'list-with-holes representation (stores, deletions, notifications, results, errors and their conditions), plus a scan '
             'that no code outside the class touches the representation')
MIN = 30
OC = 'gnome.utilities.orderedcollection.OrderedCollection.'


def r_ops(ctx):
    c = lambda n, spec, **k: contract(ctx, 'R1', OC + n, spec, **k)
    c('__init__', '''
def __init__(self, elems=None, dtype=None):
    if elems and not isinstance(elems, list):
        raise TypeError()
    if not elems:
        elems = []
    if not dtype and len(elems) == 0:
        raise TypeError()
    elif not dtype:
        self.dtype = type(elems[0])
    else:
        self.dtype = dtype
    if not all([isinstance(e, self.dtype) for e in elems]):
        raise TypeError()
    self._elems = elems[:]
    self._d_index = {self._s_id(elem): idx for idx, elem in enumerate(self._elems)}
    self.callbacks = []
''')
    c('_s_id', '''
def _s_id(self, elem):
    if hasattr(elem, 'id'):
        return str(elem.id)
    else:
        return str(id(elem))
''')
    c('remake', '''
def remake(self):
    if None in self._elems:
        self._elems = [elem for elem in self._elems if elem is not None]
        for ix, elem in enumerate(self._elems):
            self._d_index[self._s_id(elem)] = ix
''')
    c('get', '''
def get(self, ident):
    try:
        idx = sorted(self._d_index.values())[ident]
        return self._elems[idx]
    except TypeError:
        return self._elems[self._d_index[ident]]
''', ignore_exc=False)
    c('add', '''
def add(self, elem):
    if isinstance(elem, self.dtype):
        l__id = self._s_id(elem)
        if l__id not in self._d_index:
            self._d_index[l__id] = len(self._elems)
            self._elems.append(elem)
            self.fire_event('add', elem)
    else:
        for e in elem:
            if not isinstance(e, self.dtype):
                raise TypeError()
            self.add(e)
''', calls=('append', 'fire_event', 'add'), order=('append', 'fire_event', 'store:_d_index'))
    c('add', '''
def add(self, elem):
    if isinstance(elem, self.dtype):
        l__id = self._s_id(elem)
        if l__id not in self._d_index:
            self.fire_event('add', elem)
    else:
        try:
            for e in elem:
                if not isinstance(e, self.dtype):
                    raise TypeError()
                self.add(e)
        except TypeError:
            raise TypeError()
''', construct=OC + 'add[not iterable]', attrs=(), returns=False, ignore_exc=False)
    c('append', '''
def append(self, elem):
    self.add(elem)
''', calls=('add',))
    c('remove', '''
def remove(self, ident):
    if ident in self._d_index:
        obj_id = ident
    else:
        obj_id = self._s_id(self[ident])
    item = self[obj_id]
    self._elems[self._d_index[obj_id]] = None
    del self._d_index[obj_id]
    self.fire_event('remove', item)
''', calls=('fire_event',))
    c('replace', '''
def replace(self, ident, new_elem):
    if not isinstance(new_elem, self.dtype):
        raise TypeError()
    if isinstance(ident, int):
        l__key = self._s_id(self[ident])
    else:
        if ident in self._d_index:
            l__key = ident
        else:
            raise KeyError()
    idx = self._d_index[l__key]
    del self._d_index[l__key]
    self._elems[idx] = new_elem
    self._d_index[self._s_id(new_elem)] = idx
    self.fire_event('replace', new_elem)
''', calls=('fire_event',))
    c('index', '''
def index(self, elem):
    try:
        if hasattr(elem, 'id'):
            idx = self._s_id(elem)
            try:
                idx = self._d_index[idx]
            except KeyError:
                raise ValueError()
        else:
            idx = self._d_index[elem]
    except KeyError:
        ident = self._s_id(elem)
        try:
            idx = self._d_index[ident]
        except KeyError:
            raise ValueError()
    return sorted(self._d_index.values()).index(idx)
''')
    c('__len__', '''
def __len__(self):
    return len(self._d_index)
''')
    c('__iter__', '''
def __iter__(self):
    for i in sorted(self._d_index.values()):
        yield self._elems[i]
''')
    c('__contains__', '''
def __contains__(self, elem):
    return self._s_id(elem) in self._d_index
''')
    c('__getitem__', '''
def __getitem__(self, ident):
    if isinstance(ident, slice):
        return [self.get(ix) for ix in range(*ident.indices(len(self)))]
    else:
        return self.get(ident)
''')
    c('__setitem__', '''
def __setitem__(self, ident, new_elem):
    self.replace(ident, new_elem)
''', calls=('replace',))
    c('__delitem__', '''
def __delitem__(self, ident):
    self.remove(ident)
''', calls=('remove',))
    c('__iadd__', '''
def __iadd__(self, rop):
    self.add(rop)
    return self
''', calls=('add',))
    c('__eq__', '''
def __eq__(self, other):
    if not isinstance(other, OrderedCollection):
        return False
    if len(self) != len(other):
        return False
    for oc in zip(self, other):
        if oc[0] != oc[1]:
            return False
    return True
''')
    c('__ne__', '''
def __ne__(self, other):
    return not self == other
''')
    c('clear', '''
def clear(self):
    del self._elems[:]
    self._d_index.clear()
''', calls=('clear',))
    c('values', '''
def values(self):
    return [item for item in self._elems if item is not None]
''')
    c('update', '''
def update(self, cstruct, refs=None):
    if not isinstance(cstruct, list):
        raise ValueError()
    new_vals = []
    for elem in cstruct:
        if isinstance(elem, dict):
            id_ = elem.get('id', None)
            if id_ is None:
                raise ValueError()
            if id_ in self._d_index:
                obj = self.get(id_)
                obj.update(elem)
            else:
                raise ValueError()
            new_vals.append(obj)
        elif isinstance(elem, self.dtype):
            new_vals.append(elem)
        else:
            raise ValueError()
    self.clear()
    self.add(new_vals)
    return self
''', calls=('clear', 'add', 'append', 'update'), order=('clear', 'add'))


def r_events(ctx):
    contract(ctx, 'R2', OC + 'fire_event', '''
def fire_event(self, event, obj_):
    for (callback, reg_event) in self.callbacks:
        if event in reg_event:
            callback(obj_)
''', calls=(None,))
    contract(ctx, 'R2', OC + 'register_callback', '''
def register_callback(self, callback, events=('add', 'replace', 'remove')):
    if not isinstance(events, (list, tuple)):
        events = (events, )
    for event in events:
        if event not in ('add', 'remove', 'replace'):
            raise ValueError()
    self.callbacks.append((callback, events))
''', calls=('append',), returns=False)


def r_private(ctx):
    """the representation is only touched by the class itself"""
    P = ctx.P
    oc = P.cls(OC[:-1])
    n = 0
    for f in all_functions(P):
        if f.cls is not None and oc in P.mro(f.cls):
            continue
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and node.attr in ('_d_index', '_elems'):
                n += 1
                ok = isinstance(node.ctx, ast.Load)
                ctx.check(True if ok else None, 'R3', f.qualname, 'representation of a collection used outside its class')
    ctx.ok('R3', 'scan of %d functions' % sum(1 for _ in all_functions(P)))


RULES = [
    ('R1', 'each operation changes list, index map and notifies exactly as a list of distinct objects requires', r_ops),
    ('R2', 'every registered callback for an event is called once with the object', r_events),
    ('R3', 'no other code modifies the representation', r_private),
]
