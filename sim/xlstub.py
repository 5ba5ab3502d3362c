"""A spreadsheet engine for pandas, registered as 'openpyxl' (none is installed):
sheets are stored as JSON in a zip file that pandas recognises as xlsx, and any
call can be made to fail."""
import json, zipfile
from . import sched as S

FAIL = {}          # (call name, client) -> remaining calls before it fails
LOG = []           # (event, detail)


class EngineError(Exception):
    pass


KIND = {}          # client -> which error
ERRORS = {'EngineError': EngineError, 'OSError': OSError, 'ValueError': ValueError, 'KeyError': KeyError, 'PermissionError': PermissionError,
          'TypeError': TypeError, 'IndexError': IndexError, 'MemoryError': MemoryError, 'BadZipFile': zipfile.BadZipFile}


def tick(name):
    t = getattr(S._current, 'task', None)
    n = FAIL.get((name, t.i)) if t is not None and not t.mute else None
    if n is not None:
        if n <= 0:
            LOG.append(('fail', name))
            raise ERRORS[KIND.get(t.i, 'EngineError')](f'engine failed in {name}')
        FAIL[name, t.i] = n - 1


def install(pause):
    import pandas as pd
    from pandas.io.excel._base import ExcelWriter, BaseExcelReader, ExcelFile
    from pandas.io.excel._util import register_writer

    class Book(dict):
        closed = False

        def close(self):
            self.closed = True

    class Writer(ExcelWriter):
        _engine = 'openpyxl'
        _supported_extensions = ('.xlsx', '.xlsm')

        def __init__(self, *a, **kw):
            tick('open')
            super().__init__(*a, **kw)
            self._book = {}
            self.saved = 0
            LOG.append(('open', id(self)))

        @property
        def book(self):
            return self._book

        @property
        def sheets(self):
            return self._book

        def _write_cells(self, cells, sheet_name=None, startrow=0, startcol=0, *a, **kw):
            pause()
            sheet_name = self._get_sheet_name(sheet_name)
            tick('write')
            out = self._book.setdefault(sheet_name, {})
            for c in cells:
                v, _ = self._value_with_fmt(c.val)
                out[(startrow + c.row, startcol + c.col)] = v
            LOG.append(('sheet', sheet_name))
            pause()

        def _save(self):
            self.saved += 1
            LOG.append(('save', id(self)))
            tick('save')
            doc = [[k, [[r, c, v] for (r, c), v in sh.items()]] for k, sh in self._book.items()]
            with zipfile.ZipFile(self._handles.handle, 'w') as z:
                z.writestr(zipfile.ZipInfo('xl/workbook.xml'), json.dumps(doc))

    class Reader(BaseExcelReader):
        @property
        def _workbook_class(self):
            return Book

        def load_workbook(self, f, engine_kwargs):
            pause()
            tick('load')
            with zipfile.ZipFile(f) as z:
                return Book((k, sh) for k, sh in json.loads(z.read('xl/workbook.xml')))

        @property
        def sheet_names(self):
            return list(self.book)

        def get_sheet_by_name(self, name):
            self.raise_if_bad_sheet_by_name(name)
            return self.book[name]

        def get_sheet_by_index(self, i):
            return self.book[self.sheet_names[i]]

        def get_sheet_data(self, sheet, rows=None):
            pause()
            tick('sheet')
            if not sheet:
                return []
            nr = max(r for r, _, _ in sheet) + 1
            nc = max(c for _, c, _ in sheet) + 1
            out = [[''] * nc for _ in range(nr)]
            for r, c, v in sheet:
                out[r][c] = v
            return out

    register_writer(Writer)
    ExcelFile._engines = dict(ExcelFile._engines, openpyxl=Reader)
    return Writer, Reader
