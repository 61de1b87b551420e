"""Shared by C19 and C20: an application schema of persistent objects, a simulated storage handler and a reference tree."""
import copy
import json

from dsim.kit import Injected

PROPS = ("a", "b", "c", "d", "e", "f", "g", "z")
ITEMS = ("head", "tail")
RELS = ("kids", "others")


class Crash(BaseException):
    """The simulated process dies here; only what is in the storage survives."""


class StorageError(Exception):
    """The storage refuses a write; nothing is written."""


class Storage:
    """Storage handler as an application would write it: one document, changed in place and committed as a whole."""

    def __init__(self, sim, durable, faults):
        self.sim = sim
        self.durable = durable  # the committed document (JSON text)
        self.doc = json.loads(durable)
        self.faults = faults  # function: () -> None | "error" | "crash-before" | "crash-after"
        self.calls = []
        self.external = {}
        self.delayed = []
        self.rewritten = []

    @property
    def properties(self):
        return self.doc

    def get_properties(self, object):
        return self.dict_of(object)

    def dict_of(self, obj):
        parent = obj.persistent_object_parent
        if not parent:
            return self.doc
        return obj.get_accessor_in_parent()(self.dict_of(parent.parent))

    def write(self, what, obj, change):
        sim = self.sim
        sim.point()
        f = self.faults()
        self.calls.append((what, obj.uuid))
        sim.log("storage", what, f or "")
        sim.count("storage_calls")
        if f == "crash-before":
            sim.count("fault.crash_before_write")
            raise Crash()
        if f == "error":
            sim.count("fault.storage_error")
            raise StorageError(what)
        change()
        self.durable = json.dumps(self.doc)
        self.doc = json.loads(self.durable)
        if f == "crash-after":
            sim.count("fault.crash_after_write")
            raise Crash()

    def set_property(self, object, name, value):
        def change():
            d = self.dict_of(object)
            d[name] = copy.deepcopy(value)
            d["modified"] = object.modified.isoformat()
        self.write("set_property", object, change)

    def clear_property(self, object, name):
        def change():
            d = self.dict_of(object)
            d.pop(name, None)
            d["modified"] = object.modified.isoformat()
        self.write("clear_property", object, change)

    def insert_item(self, parent, name, before_index, item):
        self.write("insert_item", parent, lambda: self.dict_of(parent).setdefault(name, list()).insert(before_index, item.write_to_dict()))
        item.persistent_object_context = parent.persistent_object_context

    def remove_item(self, parent, name, item_index, item):
        def change():
            del self.dict_of(parent)[name][item_index]
        self.write("remove_item", parent, change)

    def set_item(self, parent, name, item):
        def change():
            d = self.dict_of(parent)
            if item is not None:
                d[name] = item.write_to_dict()
            else:
                d.pop(name, None)
        self.write("set_item", parent, change)
        if item is not None:
            item.persistent_object_context = parent.persistent_object_context

    def write_external_data(self, item, name, value):
        self.external[(item.uuid, name)] = value

    def read_external_data(self, item, name):
        return self.external.get((item.uuid, name))

    # delayed writing is up to the application; these record what they were asked
    def enter_write_delay(self, object):
        self.delayed.append(object)

    def exit_write_delay(self, object):
        self.delayed.remove(object)

    def is_write_delayed(self, object):
        return any(x is object for x in self.delayed)

    def rewrite_item(self, item):
        self.rewritten.append(item)

    def get_storage_property(self, item, name):
        return self, item, name


class Blob:
    def __init__(self, v=None):
        self.v = v

    def read_dict(self, d):
        self.v = d["v"]

    def write_dict(self):
        return {"v": self.v}

    def __eq__(self, other):
        return isinstance(other, Blob) and self.v == other.v

    def __bool__(self):
        return self.v % 3 != 0

    def __repr__(self):
        return f"Blob({self.v})"


def make_node_class(P, schema, hooks=None):
    """schema: keys (bool) - store properties and relationships under other keys than their names"""
    log = hooks if hooks is not None else []

    class Converter:
        def convert(self, value):
            return None if value is None else f"<{value}>"

        def convert_back(self, value):
            return None if value is None else int(value[1:-1])

    def reader(prop, properties):
        v = properties.get("own" if schema.get("own") else prop.key)
        if v is not None and schema.get("own") and properties.get("own_note") != str(v[0]):
            return -1
        return v[0] if v is not None else None

    def writer(prop, properties, value):
        if schema.get("own"):
            properties["own"] = [value]  # under keys of its own
            properties["own_note"] = str(value)
        elif value is not None:
            properties[prop.key] = [value]

    def key(n):
        return f"stored_{n}" if schema["keys"] else None

    class Node(P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_type("node")
            self.define_property("a", key=key("a"), changed=self.hook_changed)
            self.define_property("b", converter=Converter(), key=key("b"))
            self.define_property("c", 5, validate=lambda v: int(v))
            self.define_property("d", make=Blob, key=key("d"))
            self.define_property("e", reader=reader, writer=writer, key=key("e"))
            self.define_property("f", copy_on_read=True)
            self.define_property("g", hidden=True, key=key("g"))
            self.define_property("ro", 7, read_only=True)
            self.define_property("h", 9, hidden=True)  # of no concern outside the class
            self.define_item("head", factory, self.hook_item)
            self.define_item("tail", factory, hidden=True)
            self.define_relationship("kids", factory, self.hook_insert, self.hook_remove, key=key("kids"))
            self.define_relationship("others", factory)
            self.own = None
            self.finished = 0
            self.contexts = 0

        def hook_changed(self, name, value):
            log.append(("changed", self, name, value))

        def hook_item(self, name, old, new):
            log.append(("item", self, name, old, new))

        def hook_insert(self, name, index, item):
            log.append(("insert", self, name, index, item))

        def hook_remove(self, name, index, item):
            log.append(("remove", self, name, index, item))

        def persistent_object_context_changed(self):
            super().persistent_object_context_changed()
            self.contexts += 1

        def finish_reading(self):
            super().finish_reading()
            self.finished += 1

        @property
        def tail(self):
            return self.get_item("tail")

        # a property the class stores itself
        @property
        def z(self):
            return self.own

        @z.setter
        def z(self, value):
            self.own = copy.deepcopy(value)
            self._update_persistent_property("z", copy.deepcopy(value))

        def read_from_dict(self, properties):
            super().read_from_dict(properties)
            self.own = properties.get("z")

        def write_to_dict(self):
            d = super().write_to_dict()
            if self.own is not None:
                d["z"] = copy.deepcopy(self.own)
            return d

        def deepcopy_from(self, item, memo):
            super().deepcopy_from(item, memo)
            self.z = item.z

        @property
        def g(self):
            return self._get_persistent_property_value("g")

        @g.setter
        def g(self, value):
            self._set_persistent_property_value("g", value)

    if schema.get("bare"):
        del Node.tail  # hidden, and known to the class only

    def factory(lookup_id):
        assert lookup_id("type") == "node" and lookup_id("nothing", 3) == 3
        return Node()

    return Node


def value_for(prop, n, none_ok=True):
    """n: small integer; the values a property takes"""
    if n == 0 and none_ok and prop != "c":
        return None
    if prop in ("a", "g"):
        return [n, f"s{n}", [n, {"x": n}], {"k": [n]}, False, 0, ""][n % 7]
    if prop == "b":
        return n
    if prop == "c":
        return n
    if prop == "d":
        return Blob(n)
    if prop == "e":
        return n * 10 if n != 3 else 0
    if prop == "z":
        return [n] if n % 2 else 0
    if prop == "f":
        return {"list": [n], "n": n} if n not in (4, 6) else {} if n == 4 else []


def new_ref(uuid):
    return dict(uuid=uuid, a=None, b=None, c=5, d=None, e=None, f=None, g=None, z=None, ro=7, head=None, tail=None, kids=[], others=[])


def snapshot(node):
    """the public contents of a tree of real objects"""
    r = dict(uuid=node.uuid, ro=node.ro)
    for p in PROPS:
        v = getattr(node, p)
        r[p] = copy.deepcopy(v)
    for i in ITEMS:
        x = node.get_item(i)
        r[i] = snapshot(x) if x is not None else None
    for k in RELS:
        r[k] = [snapshot(x) for x in getattr(node, k)]
    return r


def difference(a, b, path="root"):
    for k in sorted(a):
        if k in ITEMS:
            if (a[k] is None) != (b[k] is None):
                return f"{path}.{k} is {'missing' if a[k] is None else 'present'}"
            if a[k] is not None:
                d = difference(a[k], b[k], f"{path}.{k}")
                if d:
                    return d
        elif k in RELS:
            if [x["uuid"] for x in a[k]] != [x["uuid"] for x in b[k]]:
                return f"{path}.{k} holds {len(a[k])} objects, expected {len(b[k])}, or in another order or with other identities"
            for i, (x, y) in enumerate(zip(a[k], b[k])):
                d = difference(x, y, f"{path}.{k}[{i}]")
                if d:
                    return d
        elif a[k] != b[k] or type(a[k]) is not type(b[k]):
            return f"{path}.{k} is {a[k]!r}, expected {b[k]!r}"
    return None


def walk(ref):
    yield ref
    for i in ITEMS:
        if ref[i] is not None:
            yield from walk(ref[i])
    for k in RELS:
        for x in ref[k]:
            yield from walk(x)


def walk_nodes(node):
    yield node
    for i in ITEMS:
        x = node.get_item(i)
        if x is not None:
            yield from walk_nodes(x)
    for k in RELS:
        for x in getattr(node, k):
            yield from walk_nodes(x)
