"""Loads the code under test from the working tree (never a copy)."""
import json
import logging
import os
import sys
import warnings

from .core import REPO, CURRENT

sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")

import latex2json  # noqa: E402

assert os.path.realpath(latex2json.__file__).startswith(os.path.realpath(REPO) + os.sep), latex2json.__file__

from latex2json.parser.tex_parser import LatexParser  # noqa: E402
from latex2json.structure.builder import TokenBuilder  # noqa: E402
from latex2json.tex_reader import TexReader, ProcessingResult, TexProcessingError  # noqa: E402
from latex2json.tex_file_extractor import TexFileExtractor  # noqa: E402
from latex2json.latex_maps.latex_unicode_converter import LatexUnicodeConverter  # noqa: E402

LatexUnicodeConverter()  # build the class-level tables once, before forking


def dump(tokens):
    return json.loads(json.dumps([t.model_dump(mode="json", exclude_none=True) for t in tokens]))


def convert(text, preprocess=False, parser=None):
    """text -> JSON tokens through parser and builder."""
    CURRENT["input"] = text
    p = parser or LatexParser()
    toks = p.parse(text, preprocess=preprocess)
    return dump(TokenBuilder().build(toks))


def convert_file(path, reader=None):
    """path -> parsed JSON document through the public reader."""
    r = reader or TexReader()
    return json.loads(r.to_json(r.process(path)))
