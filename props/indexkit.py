"""Creating indexes in harnesses."""


def fast(x):
    """Looking for the versions of installed modules takes seconds and is the same on every path."""
    import ratarmountcore.SQLiteIndex as module

    x.patch(module, 'find_module_version', lambda name: '1.0')


class Tokens:
    """json for values with symbolic parts: the text stands for the value."""

    def __init__(self):
        import json

        self._json = json
        self._known = {}

    def dumps(self, value, *a, **k):
        token = f'#{len(self._known)}'
        self._known[token] = value
        return token

    def loads(self, text, *a, **k):
        if text in self._known:
            return self._known[text]
        return self._json.loads(text, *a, **k)

    def __getattr__(self, name):
        return getattr(self._json, name)


def tokens(x):
    """Store archive stats with symbolic sizes and times."""
    import ratarmountcore.mountsource.formats.tar as tar
    import ratarmountcore.mountsource.SQLiteIndexMountSource as source
    import ratarmountcore.SQLiteIndex as index

    if x.symbolic:
        model = Tokens()
        for module in (tar, source, index):
            x.patch(module, 'json', model)
