"""The resolution order of an index and its bases."""
from checks import auth as h
from checks import index
from devpi_server.config import hookimpl
from symdev.harness import Case


class Skip:
    names = ()

    @hookimpl
    def devpiserver_sro_skip(self, stage, base_stage):
        if base_stage.name in self.names:
            return True
        return None


skip = Skip()


def setup(S):
    h.plugin1.reset()
    skip.names = ()
    from symdev.env import make_xom
    return make_xom(S, plugins=[skip])


def chain(configs, start, skipped, types):
    """ stages in breadth first order of the bases, each once, mirrors last """
    order = []
    mirrors = []
    todo = [start]
    while todo:
        name = todo.pop(0)
        if name in order:
            continue
        order.append(name)
        for base in configs(name):
            if base not in types or base in skipped:
                continue
            if base == start:
                continue
            if types[base] == "mirror":
                if base not in mirrors:
                    mirrors.append(base)
            else:
                todo.append(base)
    return order + mirrors


def order(S, n, mirrors, most, skips, start):
    xom = setup(S)
    stages = ["u/%s" % "abcd"[i] for i in range(n)]
    mirrornames = ["u/%s" % "mn"[i] for i in range(mirrors)]
    pool = stages + mirrornames + ["u/gone"]
    types = {x: "stage" for x in stages}
    types.update({x: "mirror" for x in mirrornames})
    most = dict(zip(stages, most))

    def stage_config(S, name):
        num = S.choice("number of bases of " + name, list(range(most[name] + 1)))
        bases = tuple([S.choice("base %d of %s" % (i, name), pool) for i in range(num)])
        return dict(type="stage", volatile=True, bases=bases)

    def mirror_config(S, name):
        return dict(type="mirror", volatile=True, mirror_url="http://localhost/")
    if skips:
        skip.names = S.choice("skipped", [(), ("u/b",), ("u/m",)])
    configs = {}
    for name in stages:
        configs[name] = stage_config
    for name in mirrornames:
        configs[name] = mirror_config
    with xom.keyfs.read_transaction():
        lazy = index.lazy_indexes(S, xom, configs)
        stage = lazy.getstage("u/a")
        result = []
        for x in stage.sro():
            result.append(x.name)
            S.check(len(result) <= len(types), "no index twice and the order ends")
        expected = chain(lambda name: lazy.config(name)["bases"], "u/a", skip.names, types)
        S.check(result == expected, "order of the indexes",
                lambda: repr((result, expected, lazy.made)))
        S.observe("order", result)


def cases(tier):
    res = [
        Case("two stages", order, n=2, mirrors=2, most=(2, 2), skips=False, start="u/a",
             time_limit=100, bounds="two indexes and two mirrors, any list of up to two bases each"),
        Case("three stages", order, n=3, mirrors=1, most=(2, 2, 1), skips=False, start="u/a",
             time_limit=200, max_paths=100000, bounds="three indexes and a mirror, up to two bases each, one for the last"),
        Case("skipped", order, n=2, mirrors=1, most=(2, 2), skips=True, start="u/a",
             time_limit=100, bounds="bases skipped by a plugin"),
    ]
    if tier == "thorough":
        res += [
            Case("four stages", order, n=4, mirrors=1, most=(2, 2, 2, 1), skips=False, start="u/a",
                 time_limit=700, max_paths=1000000, bounds="four indexes and a mirror, any list of up to two bases each"),
            Case("three bases", order, n=3, mirrors=1, most=(3, 2, 2), skips=False, start="u/a",
                 time_limit=700, max_paths=1000000, bounds="three indexes and a mirror, any list of up to three bases each"),
        ]
    return res
