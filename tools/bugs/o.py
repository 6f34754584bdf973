COMMON = r'''
import os, sys, tempfile, shutil, atexit
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
def put(name, text=""):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
'''
BUGS = [
dict(id='c24-cache-content', property='C24', needs='a bytecode cache that holds a file other than bytecode',
     breaks='files other than bytecode are kept in the caches, and the caches with them',
     edits=[('mcpyrate/pycachecleaner.py', '        for x in files:\n            try:', '        for x in files:\n            if not x.endswith((".pyc", ".pyo", ".mcpyrate", ".pickle")) and "." in x and not x.rpartition(".")[2].isdigit():\n                continue  # none of our business\n            try:'),
            ('mcpyrate/pycachecleaner.py', '''    try:
        os.rmdir(path)
    except FileNotFoundError:
        pass''', '''    try:
        os.rmdir(path)
    except OSError:
        pass''')],
     demo=COMMON + r'''
from mcpyrate.pycachecleaner import deletepycachedirs
put("a/__pycache__/x.pyc"); put("a/__pycache__/notes.txt"); put("a/x.py")
deletepycachedirs(d)
assert os.listdir(d + "/a") == ["x.py"]
'''),
dict(id='c24-hidden-dirs', property='C24', needs='a bytecode cache below a hidden directory',
     breaks='caches in hidden directories are left there',
     edits=[('mcpyrate/pycachecleaner.py', '    for root, dirs, files in os.walk(path):\n', '    for root, dirs, files in os.walk(path):\n        dirs[:] = [x for x in dirs if not x.startswith(".")]  # version control, virtual environments\n'),
            ('mcpyrate/pycachecleaner.py', '    paths = []\n', '    paths = list()\n')],
     demo=COMMON + r'''
from mcpyrate.pycachecleaner import deletepycachedirs
put("a/.hidden/__pycache__/x.pyc"); put("a/x.py")
deletepycachedirs(d)
assert os.listdir(d + "/a/.hidden") == []
'''),
dict(id='c24-follow-links', property='C24', needs='a symbolic link to a directory outside the tree that has bytecode caches',
     breaks='links to directories are followed, and the caches behind them deleted',
     edits=[('mcpyrate/pycachecleaner.py', '    for root, dirs, files in os.walk(path):', '    for root, dirs, files in os.walk(path, followlinks=os.path.islink(path) or bool(path)):')],
     demo=COMMON + r'''
from mcpyrate.pycachecleaner import deletepycachedirs
put("out/__pycache__/x.pyc"); put("tree/x.py"); os.symlink("../out", d + "/tree/link")
deletepycachedirs(d + "/tree")
assert os.path.exists(d + "/out/__pycache__/x.pyc")
'''),
dict(id='c24-race', property='C24', needs='an entry that vanishes (another cleaner runs) between listing and deleting it',
     breaks='cleaning fails half way when an entry vanishes meanwhile',
     edits=[('mcpyrate/pycachecleaner.py', '''    try:
        os.rmdir(path)
    except FileNotFoundError:
        pass''', '''    if os.path.isdir(path):
        os.rmdir(path)''')],
     demo=COMMON + r'''
from mcpyrate.pycachecleaner import deletepycachedirs
put("a/__pycache__/x.pyc"); put("b/__pycache__/x.pyc")
on = [True]
def hook(event, args):
    if event == "os.rmdir" and on:   # another cleaner is faster
        on.clear()
        assert args[0].startswith(d)
        os.rmdir(args[0])
sys.addaudithook(hook)
deletepycachedirs(d)
assert os.listdir(d + "/a") == os.listdir(d + "/b") == []
'''),
]
