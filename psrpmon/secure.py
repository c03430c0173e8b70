"""The peer's side of the session key exchange and of secure strings (MS-PSRP 2.2.2.3/4, 2.2.5.1.24)."""
import base64
import struct

from cryptography.hazmat.primitives import padding as sympad
from cryptography.hazmat.primitives.asymmetric import padding, rsa
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from .core import Violation, short


def public_key(b64):
    b = base64.b64decode(b64, validate=True)
    head = b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1"
    if b[:12] != head:
        raise Violation("public-key-blob", short(b[:24]))
    bits, e = struct.unpack("<II", b[12:20])
    if bits != 2048 or len(b) != 20 + 256:
        raise Violation("public-key-blob", "%d bits, %d bytes" % (bits, len(b)))
    return rsa.RSAPublicNumbers(e, int.from_bytes(b[20:], "little")).public_key()


KEYS = []       # session keys issued since somebody emptied it


def seal_key(pub_b64, key, zero=None):
    """zero: the position of a byte of the RSA ciphertext that has to be zero"""
    KEYS.append(key)
    pub = public_key(pub_b64)
    enc = pub.encrypt(key, padding.PKCS1v15())
    for _ in range(20000):
        if zero is None or enc[zero] == 0:
            break
        enc = pub.encrypt(key, padding.PKCS1v15())
    blob = b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" + enc[::-1]
    return base64.b64encode(blob).decode()


def _cipher(key):
    return Cipher(algorithms.AES(key), modes.CBC(b"\0" * 16))


def encryptor(key):
    def enc(text):
        p = sympad.PKCS7(128).padder()
        c = _cipher(key).encryptor()
        return c.update(p.update(text.encode("utf-16-le", "surrogatepass")) + p.finalize()) + c.finalize()
    return enc


def decryptor(key):
    def dec(data):
        c = _cipher(key).decryptor()
        p = sympad.PKCS7(128).unpadder()
        raw = c.update(data) + c.finalize()
        return (p.update(raw) + p.finalize()).decode("utf-16-le", "surrogatepass")
    return dec
