"""pyvc: a small deductive verifier for the Python subset asyncapi3 is written in.

The verified text is the source of the function objects that the imported
package really runs (see source.py); nothing is rewritten by hand.
"""
