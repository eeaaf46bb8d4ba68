"""The persistent classifiers, opened uniformly."""
import glob
import os

BACKENDS = ('pickle', 'shelve', 'cdb')


def cls(backend):
    from sbclassifier.classifiers import storage
    return dict(pickle=storage.PickleClassifier,
                shelve=storage.ShelveClassifier,
                cdb=storage.CDBClassifier)[backend]


def open_store(backend, directory, name='db'):
    return cls(backend)(os.path.join(directory, name))


def files(directory):
    """Contents of every file below the directory."""
    result = {}
    for path in sorted(glob.glob(os.path.join(directory, '**'),
                                 recursive=True)):
        if os.path.isfile(path):
            with open(path, 'rb') as f:
                result[os.path.relpath(path, directory)] = f.read()
    return result


def known_words(c):
    """All words the classifier knows (after a save)."""
    return set(c._wordinfokeys())
