"""Stand-in for a text file opened for reading (typing.TextIO): bodies are never verified; the assumed contracts are in
contracts/zzzzze_extract.py. The text of a file does not change while it is read."""


class TextIO:
    def __init__(self, path: str):
        self.path: str = path
        self.pos: int = 0

    def readline(self) -> str:
        raise NotImplementedError
