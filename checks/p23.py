RULE = ("abstract interpretation of the generated code: the repository's generator is run on a family of accepted specifications whose controls ask for warnings or errors; over the typed syntax tree of its output every validation/execution acknowledgement class is taken through setters, optional references, resetters and word resetters of its warning and error fields, from enumerated subsets of reported fields, built and decoded; after each step its bytes must be the prologue, the indicator words and the fields that exactly the reported warnings and errors prescribe, the acknowledge word's flags must say which kind is present, readers must agree, and serialising again must give the same bytes")
import weifmodel


def run(chk):
    weifmodel.run(chk)
