"""encoding of byte strings in harness inputs"""
import base64


def enc(b):
    return base64.b64encode(bytes(b)).decode()
