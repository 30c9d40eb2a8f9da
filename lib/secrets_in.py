"""Searches text for key material in the encodings it could leak in."""
import base64


def forms(secret):
    """Substrings that betray `secret` (bytes): raw, hex, decimal, and Base64 at
    every alignment."""
    out = [secret, secret.hex().encode(), secret.hex().upper().encode(),
           secret[::-1], secret[::-1].hex().encode(),
           str(int.from_bytes(secret, 'big')).encode()]
    for shift in range(3):
        b = base64.b64encode(b'\0' * shift + secret)
        lo = -(-shift * 4 // 3)
        hi = (shift + len(secret)) * 8 // 6
        cut = b[lo + (1 if shift else 0):hi - 1]
        out += [cut, cut.replace(b'+', b'-').replace(b'/', b'_')]
    # two thirds of it would be as bad
    return [f for f in out if len(f) >= 8]


def find(data, secrets):
    """The first secret found in data (bytes), or None."""
    for s in secrets:
        if isinstance(s, int):
            s = s.to_bytes((s.bit_length() + 7) // 8, 'big')
        for part in (s, s[:len(s) // 2], s[len(s) // 2:]):
            if len(set(part)) < 6:      # too uniform to tell
                continue
            for f in forms(part):
                if f in data:
                    return s.hex()
    return None
