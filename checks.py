"""Which harness packages and modes decide which property."""
LEVEL = "exploration"
B = ["plain", "race"]
CHECKS = {
    "C01": dict(run={"core": B}),
    "C02": dict(run={"core": B}),
    "C03": dict(run={"core": B}),
    "C04": dict(run={"core": B}),
    "C05": dict(run={"core": B}),
    "C06": dict(run={"core": B}),
    "C07": dict(run={"core": B, "web": B}),
    "C08": dict(run={"core": B}),
    "C09": dict(run={"core": B}),
    "C10": dict(run={"core": B}),
    "C11": dict(run={"core": B}),
    "C12": dict(run={"core": B}),
    "C13": dict(run={"core": B}),
    "C14": dict(run={"core": B}),
    "C15": dict(run={"core": B}),
    "C20": dict(run={"core": B}),
    "C22": dict(run={"core": B}),
    "C16": dict(run={"web": B}),
    "C17": dict(run={"web": B}),
    "C18": dict(run={"web": B}),
    "C19": dict(run={"web": B}),
    "C23": dict(run={"web": B}, cli=True),
    "C21": dict(run={"core": B, "web": B}),
    "C24": dict(run={"web": B}),
    "C25": dict(run={"web": B}),
}
