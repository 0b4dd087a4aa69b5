"""Scratch databases: every database the checks touch lives in a directory of the run's scratch folder."""
import os
import shutil
import sys
import tempfile

LANG = ['fr', 'en']
DESC = ['translations', 'tags', 'comments', 'rdf_repositories']


def quiet():
    """the code under test prints every call on the standard error"""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)


def scratch(name='db'):
    return tempfile.mkdtemp(prefix=name + '.', dir=os.environ.get('MC_SCRATCH') or None)


def wipe(folder):
    shutil.rmtree(folder, ignore_errors=True)


def snapshot(folder, skip=('.git',)):
    """{relative path: content} of the files of a folder"""
    out = {}
    for d, dirs, files in os.walk(folder):
        dirs[:] = [x for x in dirs if x not in skip]
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fp:
                out[os.path.relpath(p, folder)] = fp.read()
    return out


def restore(folder, snap, skip=('.git',)):
    """make the folder hold exactly the files of snap"""
    now = snapshot(folder, skip)
    for p in now:
        if p not in snap:
            os.remove(os.path.join(folder, p))
    for p, c in snap.items():
        if now.get(p) != c:
            q = os.path.join(folder, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as fp:
                fp.write(c)


def database(folder, **k):
    from ieml.ieml_database import IEMLDatabase
    k.setdefault('use_cache', False)
    return IEMLDatabase(folder, **k)
