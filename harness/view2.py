"""
Stand-ins for compas_view2, which needs a display: they record what they are given.

Only the calls that compas_cem makes are there: registering and building objects, the App that they
are added to, and the Text, Arrow and Collection shapes.
"""
import sys
import types

REGISTRY = {}


class Object(object):
    def __init__(self, data, **kwargs):
        self._data = data
        self.options = kwargs

    @staticmethod
    def register(data_type, object_type):
        REGISTRY[data_type] = object_type

    @staticmethod
    def build(data, **kwargs):
        return REGISTRY.get(type(data), Object)(data, **kwargs)


class NetworkObject(Object):
    pass


class Text(object):
    def __init__(self, text, position, height=50):
        self.text, self.position, self.height = text, position, height


class Arrow(object):
    def __init__(self, position=(0, 0, 0), direction=(0, 0, 1), head_portion=0.3, head_width=0.1, body_width=0.02):
        self.position, self.direction = position, direction


class Collection(object):
    def __init__(self, items, item_properties=None):
        self.items = list(items)


class App(object):
    def __init__(self, *args, **kwargs):
        self.drawn = []

    def add(self, data, **kwargs):
        self.drawn.append((data, kwargs))
        return Object.build(data, **kwargs)


def install():
    """Idempotent; to be called in a worker process before compas_cem.viewers is imported."""
    if "compas_view2" in sys.modules:
        return
    parts = {"compas_view2": {}, "compas_view2.objects": {"Object": Object, "NetworkObject": NetworkObject},
             "compas_view2.shapes": {"Text": Text, "Arrow": Arrow}, "compas_view2.collections": {"Collection": Collection},
             "compas_view2.app": {"App": App}}
    for name, members in parts.items():
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(members)
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules["compas_view2"], name.split(".")[1], m)
