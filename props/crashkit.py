"""Stopping the code at a chosen database statement, by ending the process or by an error."""
import gc
import os
import sqlite3

from symx import sqlmini


class Killed(BaseException):
    pass


class Steps:
    """Counts the statements that change a database and the removals of files; calls back at the chosen one."""

    def __init__(self, at, then):
        self.at, self.then = at, then
        self.count = 0
        self.hit = False

    def __call__(self, *_):
        if self.hit:
            self.then()
            return
        self.count += 1
        if self.at == self.count - 1:
            self.hit = True
            self.then()


def _kind(sql):
    sts = sqlmini.parse_script(sql)
    return sts[0][0][0] if sts else 'nop'


def _split(script):
    part = ''
    for piece in script.split(';'):
        part += piece + ';'
        if sqlite3.complete_statement(part):
            yield part
            part = ''


def _hooked(step):
    class Hooked(sqlite3.Connection):
        def _before(self, sql):
            if _kind(sql) not in sqlmini.NOT_COUNTED:
                step()

        def execute(self, sql, params=()):
            self._before(sql)
            return super().execute(sql, params)

        def executemany(self, sql, rows):
            for row in rows:
                self.execute(sql, row)

        def executescript(self, script):
            if self.in_transaction:
                self.commit()
            for sql in _split(script):
                self._before(sql)
                super().executescript(sql)

        def commit(self):
            if self.in_transaction:
                step()
                super().commit()

        def backup(self, other, **kw):
            step()
            super().backup(other, **kw)

    class Proxy:
        def __getattr__(self, name):
            return getattr(sqlite3, name)

        @staticmethod
        def connect(*a, **k):
            return sqlite3.connect(*a, factory=Hooked, **k)

    return Proxy()


def _install(x, step):
    import ratarmountcore.SQLiteIndex as module

    remove = module.unchecked_remove

    def removing(path):
        step()
        remove(path)

    x.patch(module, 'unchecked_remove', removing)
    if x.symbolic:
        x.sqlite.on_statement = step
    else:
        x.patch(module, 'sqlite3', _hooked(step))


def _remove(x):
    """Undo _install."""
    if x.symbolic:
        x.sqlite.on_statement = None
    else:
        x._cleanups.pop()()
    x._cleanups.pop()()


def killed(x, action, at):
    """Whether the process was killed before the at-th step of the action."""
    if x.symbolic:
        def stop():
            raise Killed

        step = Steps(at, stop)
        _install(x, step)
        try:
            action()
        except Killed:
            pass
        finally:
            _remove(x)
            x.sqlite.crash()
        return step.hit
    pid = os.fork()
    if pid == 0:
        try:
            _install(x, Steps(at, lambda: os._exit(9)))
            action()
            os._exit(0)
        except BaseException:
            import traceback

            traceback.print_exc()
            os._exit(1)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if code not in (0, 9):
        raise RuntimeError('the action failed')
    return code == 9


def failing(x, action, at, again):
    """Run the action with the at-th step, and all following if again, failing; whether it was reached and the error."""
    step = Steps(at, None)
    first = []

    def fail():
        if again or not first:
            first.append(1)
            raise sqlite3.OperationalError('database or disk is full')

    step.then = fail
    _install(x, step)
    error = None
    try:
        action()
    except Exception as e:
        error = type(e)
    finally:
        _remove(x)
        gc.collect()
    return step.hit, error
