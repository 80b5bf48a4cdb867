"""Helpers for the checks of authentication and authorization."""
from devpi_server import auth as auth_module
from devpi_server.config import hookimpl


class IdealHasher:
    """ stands for passlib and argon2: a hash which is only valid for its password.

    Hashes of the old salted scheme are still verified by the code of devpi-server.
    """

    def __init__(self):
        self.passwords = []

    def hash(self, password):
        self.passwords.append(password)
        return "$ideal$%d" % (len(self.passwords) - 1)

    def verify_and_update(self, password, pwhash):
        if pwhash.startswith("$ideal$"):
            n = int(pwhash.split("$")[2])
            return (True if self.passwords[n] == password else False, None)
        if not auth_module.DevpiHandler.identify(pwhash):
            raise ValueError("hash could not be identified")
        if auth_module.DevpiHandler.verify(password, pwhash):
            return (True, self.hash(password))
        return (False, None)


def ideal_hasher(S):
    h = IdealHasher()
    S.patch(auth_module, "pwd_context", h)
    return h


class Plugin:
    """ an authentication plugin with prepared answers """

    def __init__(self):
        self.reset()

    def reset(self):
        self.request_answer = None
        self.user_answer = None
        self.asked = []
        self.denials = None
        self.pkg_read = None
        self.defaults = {}
        self.mirror_auth = None

    @hookimpl
    def devpiserver_auth_request(self, request, userdict, username, password):
        self.asked.append((username, password))
        return self.request_answer

    @hookimpl
    def devpiserver_auth_user(self, userdict, username, password):
        self.asked.append((username, password))
        if self.user_answer is None:
            return dict(status="unknown")
        if isinstance(self.user_answer, Exception):
            raise self.user_answer
        return self.user_answer

    @hookimpl
    def devpiserver_auth_denials(self, request, acl, user, stage):
        return self.denials

    @hookimpl
    def devpiserver_stage_get_principals_for_pkg_read(self, ixconfig):
        return self.pkg_read

    @hookimpl
    def devpiserver_indexconfig_defaults(self, index_type):
        return self.defaults

    @hookimpl
    def devpiserver_get_mirror_auth(self, mirror_url, www_authenticate_header):
        return self.mirror_auth


plugin1 = Plugin()
plugin2 = Plugin()


class Authorization:
    def __init__(self, authtype, params):
        self.authtype = authtype
        self.params = params


class Registry(dict):
    def __init__(self, xom, policy=None):
        dict.__init__(self, xom=xom)
        self.xom = xom
        self.policy = policy

    def getUtility(self, iface):
        return self.policy


class Log:
    def __getattr__(self, name):
        return lambda *args, **kw: None


class Request:
    """ the attributes of a request which authentication looks at """
    authorization = None
    matched_route = None
    method = "GET"
    path_info = "/"

    def __init__(self, xom, policy=None, headers=(), matchdict=None):
        self.registry = Registry(xom, policy)
        self.headers = dict(headers)
        self.matchdict = dict(matchdict or {})
        self.log = Log()
        self.policy = policy
        self.params = {}

    def add_finished_callback(self, callback):
        pass

    @property
    def identity(self):
        return self.policy.identity(self)

    @property
    def authenticated_userid(self):
        return self.policy.authenticated_userid(self)
