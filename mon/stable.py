'''What the disk is known to hold: the contents of files as of the last time the library asked the system to
write them out.  The memory maps and syncs of this process are wrapped.'''
import errno
import mmap
import os
import sys

events = []         # (kind, inode, first, past)
disk = {}           # inode -> bytearray
refuse = 0          # how many write-outs the system is to refuse
real_mmap, real_fsync, real_fdatasync = mmap.mmap, os.fsync, os.fdatasync


def _inode(fd):
    stat = os.fstat(fd)
    return stat.st_dev, stat.st_ino


def _write_out(kind, inode, data, first):
    held = disk.setdefault(inode, bytearray())
    past = first + len(data)
    if len(held) < past:
        held += bytes(past - len(held))
    held[first:past] = data
    events.append((kind, inode, first, past))


def _ask():
    global refuse
    if refuse:
        refuse -= 1
        raise OSError(errno.EIO, os.strerror(errno.EIO))


class RecordingMap(real_mmap):
    def __new__(cls, fileno, length, *args, **kwargs):
        self = super().__new__(cls, fileno, length, *args, **kwargs)
        self.inode = _inode(fileno) if fileno >= 0 else None
        return self

    def flush(self, offset=0, size=None):
        size = len(self) - offset if size is None else size
        _ask()
        result = super().flush(offset, size)
        if self.inode:
            # the system writes out whole pages
            first = offset - offset % mmap.PAGESIZE
            past = min(len(self), offset + size + -(offset + size) % mmap.PAGESIZE)
            _write_out('msync', self.inode, self[first:past], first)
        return result


def _sync(real):
    def sync(fd):
        _ask()
        result = real(fd)
        fd = fd if isinstance(fd, int) else fd.fileno()
        _write_out(real.__name__, _inode(fd), os.pread(fd, os.fstat(fd).st_size, 0), 0)
        return result
    return sync


def install():
    '''Wrap, also in the repository's modules that have bound the originals by name.'''
    if mmap.mmap is RecordingMap:
        return
    new = {real_mmap: RecordingMap, real_fsync: _sync(real_fsync), real_fdatasync: _sync(real_fdatasync)}
    mmap.mmap, os.fsync, os.fdatasync = new.values()
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] == 'bitcoinx':
            for attr, value in list(vars(module).items()):
                if isinstance(value, type(os.fsync)) or isinstance(value, type) or callable(value):
                    try:
                        replacement = new.get(value)
                    except TypeError:
                        continue
                    if replacement:
                        setattr(module, attr, replacement)


def contents(path):
    '''What the disk holds of a file, or None.'''
    stat = os.stat(path)
    held = disk.get((stat.st_dev, stat.st_ino))
    return None if held is None else bytes(held)


def forget(path):
    stat = os.stat(path)
    disk.pop((stat.st_dev, stat.st_ino), None)
