"""Scratch git repositories for the checks of the git interface."""
import os
import shutil
from mc import dbkit as K


def sig(name='tester'):
    import pygit2
    return pygit2.Signature(name, name + '@example.org')


def commit(repo, files, parents, ref='refs/heads/master', msg='m'):
    """commit {path: bytes} directly (without a working tree)"""
    import pygit2
    idx = pygit2.Index()
    for p, c in files.items():
        idx.add(pygit2.IndexEntry(p, repo.create_blob(c), pygit2.GIT_FILEMODE_BLOB))
    return repo.create_commit(ref, sig('remote'), sig('remote'), msg, idx.write_tree(repo), parents)


def bare(folder, history):
    """a bare repository whose master branch holds the given list of contents; returns the commits"""
    import pygit2
    repo = pygit2.init_repository(folder, bare=True, initial_head='master')
    out = []
    for files in history:
        out.append(commit(repo, files, out[-1:]))
    return out


def tree(repo, commit_id):
    out = {}

    def rec(t, pre):
        for e in t:
            if e.type_str == 'tree':
                rec(repo[e.id], pre + e.name + '/')
            else:
                out[pre + e.name] = repo[e.id].data
    rec(repo[commit_id].tree, '')
    return out


def worktree(folder):
    """the files of the working tree; those at the root that start with a dot are not of the database"""
    return {p: c for p, c in K.snapshot(folder).items() if not p.startswith('.')}


def state(folder):
    """(head, its tree, working tree, True when nothing is pending)"""
    import pygit2
    repo = pygit2.Repository(folder)
    head = repo.head.target
    st = {f: k for f, k in repo.status().items() if not f.startswith('.')}
    left = [f for f in ('MERGE_HEAD', 'CHERRY_PICK_HEAD', 'REVERT_HEAD') if os.path.exists(os.path.join(repo.path, f))]
    return str(head), tree(repo, head), worktree(folder), not st and not left and repo.head.name


def unlock(folder):
    """what git asks of the user after a crash: remove the lock files left behind"""
    n = 0
    for d, _, ff in os.walk(os.path.join(folder, '.git')):
        for f in ff:
            if f.endswith('.lock'):
                os.remove(os.path.join(d, f))
                n += 1
    return n


def copy(src, dst):
    shutil.copytree(src, dst, symlinks=True)
    return dst
