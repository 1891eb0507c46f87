"""An importable module which parameters under test can name ("mc.plug.…")."""
import functools
from pathlib import Path

from vistautils.key_value import KeyValueSink, KeyValueSource
from vistautils.parameters import Parameters

CALLS = []


def char_source(params: Parameters):
    CALLS.append(params)
    return KeyValueSource.zip_character_source(Path(params.string("where")))


def byte_source(params: Parameters):
    CALLS.append(params)
    return KeyValueSource.zip_bytes_source(Path(params.string("where")))


def char_sink(params: Parameters):
    CALLS.append(params)
    return KeyValueSink.zip_character_sink(Path(params.string("where")))


def byte_sink(params: Parameters):
    CALLS.append(params)
    return KeyValueSink.zip_bytes_sink(Path(params.string("where")))


class CharSource:
    @staticmethod
    def from_parameters(params):
        return char_source(params)


class ByteSource:
    @staticmethod
    def from_parameters(params):
        return byte_source(params)


class CharSink:
    @staticmethod
    def from_parameters(params):
        return char_sink(params)


class ByteSink:
    @classmethod
    def from_parameters(cls, params):
        return byte_sink(params)


class Thing:
    """A class without from_parameters."""

    def __init__(self):
        self.made = "without arguments"

    def __eq__(self, other):
        return isinstance(other, Thing)

    __hash__ = None


class Built:
    def __init__(self, prefix, content, by):
        self.seen = (prefix, content, by)

    @staticmethod
    def from_parameters(params):
        return Built(params.namespace_prefix, params.as_nested_dicts(), "class")


class SubBuilt(Built):
    pass


def build(params):
    return Built(params.namespace_prefix, params.as_nested_dicts(), "function")


class ClassBuilt(Built):
    """A class whose from_parameters is a class method."""

    @classmethod
    def from_parameters(cls, params):
        assert cls is ClassBuilt
        return build(params)


class Builder:
    """Its instances are functions, whatever else they have."""

    def __call__(self, params):
        return build(params)

    def from_parameters(self, params):
        raise AssertionError("from_parameters of something which is no class")

    def method(self, params):
        return build(params)


BUILDER = Builder()
PARTIAL = functools.partial(lambda extra, params: build(params), "extra")


def marked(params):
    return build(params)


marked.from_parameters = BUILDER.from_parameters

NUMBER = 42
ZERO = 0
TEXT = "text"


class OrderedSource(KeyValueSource):
    """A store whose keys come in the order the parameters give."""

    def __init__(self, entries):
        self._entries = entries

    @staticmethod
    def from_parameters(params):
        return OrderedSource({k: v.encode("utf-8") for k, v in params.arbitrary_list("entries")})

    def keys(self):
        return self._entries.keys()

    def __getitem__(self, key):
        return self._entries[key]

    def get(self, key, _default=None):
        return self._entries.get(key, _default)

    def items(self, key_filter=lambda k: True):
        return iter([kv for kv in self._entries.items() if key_filter(kv[0])])

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_value, traceback):
        return None
