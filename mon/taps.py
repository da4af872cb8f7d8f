'''Taps placed below the library, installed before bitcoinx is imported.

os.urandom and the hmac module are wrapped so that entropy can be recorded and controlled
and derivation hashes can be faulted.  With no controller set the real functions are used.
'''
import hmac
import os
import random
import secrets    # noqa: F401  (imported so that its bindings exist before patching)

real_urandom = os.urandom
real_hmac_digest = hmac.digest
real_hmac_new = hmac.new

entropy_source = None        # callable(size) -> bytes
entropy_log = None           # list of bytes drawn
hmac_fault = None            # callable(key, msg, digest_name, true_result) -> bytes or None
hmac_calls = 0


def _urandom(size):
    data = entropy_source(size) if entropy_source is not None else real_urandom(size)
    if entropy_log is not None:
        entropy_log.append(data)
    return data


def _name(digest):
    if isinstance(digest, str):
        return digest.lower()
    try:
        return digest().name
    except Exception:
        return getattr(digest, '__name__', '?')


def _digest(key, msg, digest):
    global hmac_calls
    result = real_hmac_digest(key, msg, digest)
    if hmac_fault is not None:
        hmac_calls += 1
        faulted = hmac_fault(bytes(key), bytes(msg), _name(digest), result)
        if faulted is not None:
            return faulted
    return result


class _Tapped:
    '''Stands in for an HMAC object.'''

    def __init__(self, key, msg, digestmod):
        self._key, self._msg, self._mod = bytes(key), bytes(msg or b''), digestmod

    def update(self, msg):
        self._msg += bytes(msg)

    def copy(self):
        return _Tapped(self._key, self._msg, self._mod)

    def digest(self):
        return _digest(self._key, self._msg, self._mod)

    def hexdigest(self):
        return self.digest().hex()


def _new(key, msg=None, digestmod=''):
    if hmac_fault is None:
        return real_hmac_new(key, msg, digestmod)
    return _Tapped(key, msg, digestmod)


def install():
    os.urandom = _urandom
    random._urandom = _urandom
    hmac.digest = _digest
    hmac.new = _new


class entropy:
    '''Context manager: draw entropy from a function and record it.'''

    def __init__(self, source=None):
        self.source = source
        self.log = []

    def __enter__(self):
        global entropy_source, entropy_log
        entropy_source, entropy_log = self.source, self.log
        return self.log

    def __exit__(self, *_args):
        global entropy_source, entropy_log
        entropy_source = entropy_log = None


class faulty_hmac:
    def __init__(self, fault):
        self.fault = fault

    def __enter__(self):
        global hmac_fault
        hmac_fault = self.fault

    def __exit__(self, *_args):
        global hmac_fault
        hmac_fault = None
