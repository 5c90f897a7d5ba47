import build, ir

_models = {}


def model(*drivers):
    if drivers not in _models:
        _models[drivers] = ir.Module(build.module(list(drivers)), build.REPO)
    return _models[drivers]


def api():
    return model('api.cpp')
