"""Calls library code with one interruption or one switch to another thread before a chosen line of it."""
import os
import sys
import threading

ROOT = os.path.realpath(os.getcwd())
sys.path.insert(0, ROOT)
LIB = os.path.join(ROOT, 'utg') + os.sep


def traced(fn, at, action):
    """fn() with action() before the at-th line of the library -> (result, error, was there such a line)"""
    state = {'n': 0, 'hit': False}

    def local(frame, event, arg):
        if event == 'line' and not state['hit']:
            state['n'] += 1
            if state['n'] == at:
                state['hit'] = True
                action()
        return local

    def glob(frame, event, arg):
        return local if os.path.realpath(frame.f_code.co_filename).startswith(LIB) else None

    result = error = None
    sys.settrace(glob)
    try:
        result = fn()
    except BaseException as e:
        error = e
    finally:
        sys.settrace(None)
    return result, error, state['hit']


def interrupt():
    raise KeyboardInterrupt()


def other_thread(fn, box=None):
    def action():
        def body():
            try:
                r = fn()
                if box is not None:
                    box.append(r)
            except Exception as e:
                if box is not None:
                    box.append(e)
        t = threading.Thread(target=body, daemon=True)
        t.start()
        t.join(10)
    return action


def every_point(make, limit=100000):
    """make() -> (fn, action, check); check(result, error) is called for a run with action at each line in turn"""
    at = 1
    while at < limit:
        fn, action, check = make()
        result, error, hit = traced(fn, at, action)
        check(result, error)
        if not hit:
            return at
        at += 1


def fail(*args):
    print('BROKEN:', *args)
    sys.exit(1)
