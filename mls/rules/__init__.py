RULES = {
    "C01": ("parsing", "termination"),
    "C02": ("parsing", "no_panic"),
    "C03": ("trees", "lossless"),
    "C04": ("parsing", "balanced"),
    "C05": ("parsing", "token_kinds"),
    "C09": ("server", "responses"),
    "C10": ("server", "shutdown"),
    "C11": ("server", "isolation"),
    "C25": ("server", "robust"),
    "C14": ("docs", "inputs"),
    "C19": ("docs", "endings"),
    "C21": ("docs", "sync"),
    "C20": ("docs", "publication"),
    "C07": ("analysis", "errors"),
    "C16": ("linecols", "line_columns"),
    "C18": ("analysis", "positions"),
    "C08": ("locks", "discipline"),
    "C12": ("effects", "stdout"),
    "C13": ("effects", "purity"),
    "C15": ("vfs", "change_log"),
    "C26": ("typed", "typed"),
    "C27": ("lexing", "spelling"),
}
