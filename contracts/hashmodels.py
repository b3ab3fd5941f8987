"""Models of hashlib.sha1, zlib.crc32 and zlib.compressobj: each remembers what it was given;
a digest is a value that belongs to exactly this content (assumed contract: SHA-1 is a function
of the content; nothing about its values is used)."""
import hashlib
import zlib
import binascii
from .common import *
from .iomodels import *
from .hexmodel import Hex, key_bytes


class Digest:
    """what digest() gave: bytes (array) of the content"""

    def __init__(self, data, bytes_):
        self.data, self.bytes = data, bytes_


def digests(p):
    return p.ghost.setdefault('digests', [])


def digest_of(p, data):
    """the 20 bytes of the digest of a content"""
    data = as_sbytes(data)
    for d in digests(p):
        if d.data is data:
            return d.bytes
    b = from_base(ByteArr(p.name('sha1')), 0, 20)
    digests(p).append(Digest(data, b))
    return b


def content_of_digest(p, v):
    """the content whose digest v is, or None"""
    if isinstance(v, Hex):
        for d in digests(p):
            if v.n == 40 and not isinstance(v.val, int) and key_of(d.bytes) is v.val:
                return d.data
        return None
    if not is_byteslike(v):
        return None
    v = as_sbytes(v)
    for d in digests(p):
        if v.base is d.bytes.base and concb(eq(v.off, 0)) is True and concb(eq(v.n, 20)) is True:
            return d.data
    return None


class Sha(Model):
    """hashlib.sha1 object"""

    def __init__(self, data=b''):
        super().__init__('sha1')
        self.f['data'] = data

    @property
    def data(self):
        return as_sbytes(self.f['data'])

    def m_update(self, ip, d):
        self.setf('data', concat(self.data, as_sbytes(d)))

    def m_digest(self, ip):
        return digest_of(ip.p, self.data)

    def m_hexdigest(self, ip):
        return Hex(key_of(digest_of(ip.p, self.data)), 40, 'str')

    def m_copy(self, ip):
        return Sha(self.f['data'])


def m_sha1(ip, data=b'', **kw):
    return Sha(data)


HASH_MODELS = {hashlib.sha1: m_sha1}
