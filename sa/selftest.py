"""setup: the tools the checks need are present and the front end works on the current tree"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
with frontend.Tree() as t:
    r = t.compile(["src/binned/dmdmadd.c"])
    assert os.path.getsize(list(r.values())[0]) > 1000
print("front end ok")
