"""Standard-library classes lowered from source together with the package."""
SOURCE = '''
class Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default
    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True
    def keys(self):
        return [k for k in self]
    def items(self):
        return [(k, self[k]) for k in self]
    def values(self):
        return [self[k] for k in self]
    def __eq__(self, other):
        if not isinstance(other, Mapping) and not isinstance(other, dict):
            return NotImplemented
        return dict(self.items()) == dict(other.items())

class MutableMapping(Mapping):
    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if len(default) == 0:
                raise
            return default[0]
        else:
            del self[key]
            return value
    def popitem(self):
        ks = self.keys()
        if len(ks) == 0:
            raise KeyError
        key = ks[0]
        value = self[key]
        del self[key]
        return key, value
    def clear(self):
        for k in self.keys():
            del self[k]
    def update(self, other=(), **kwds):
        if isinstance(other, Mapping) or isinstance(other, dict):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value
    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default
'''
