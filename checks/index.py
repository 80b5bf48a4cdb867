"""Helpers for the checks of indexes."""
from checks import auth as h
from symdev.env import make_xom


def setup(S, more=(), **kw):
    h.plugin1.reset()
    h.plugin2.reset()
    xom = make_xom(S, plugins=[h.plugin1, h.plugin2, *more], **kw)
    h.ideal_hasher(S)
    return xom


def make_user(xom, name="u", password="pw"):
    return xom.model.create_user(name, password)


class LazyIndexes:
    """ index configurations which are decided when they are first asked for """

    def __init__(self, S, xom, configs):
        self.configs = configs
        self.made = {}
        self.S = S
        self.xom = xom
        self.asked = []

    def config(self, name):
        if name not in self.made:
            self.made[name] = self.configs[name](self.S, name)
        return self.made[name]

    def getstage(self, user, index=None):
        if index is None:
            user, index = user.split("/")
        name = user + "/" + index
        self.asked.append(name)
        if name not in self.configs:
            return None
        config = self.config(name)
        _user = self.xom.model.get_user(user)
        if _user is None:
            from devpi_server.model import User
            _user = User(self.xom.model, user)
        return _user._getstage(index, config["type"], config)


def lazy_indexes(S, xom, configs):
    """ in the current transaction """
    lazy = LazyIndexes(S, xom, configs)
    S.patch(xom.model, "getstage", lazy.getstage)
    return lazy
