"""Yield points: an AST pass over package code as it is loaded for simulation (the files in /repo stay as they are).

Before every statement of a function body a call to __advsim_pt__() is inserted, and operands are passed through
__advsim_pv__(x), which returns x, immediately before the operation that uses them: before a call, an operator, a
subscript, a comparison, a store.  Outside a simulated run these functions do nothing, so the woven code computes what
the original computes.

The variants ending in 0 are yield points where no fault is injected: cleanup code (finally blocks, exception handlers),
the instant between the end of a call and the store of its result, and the instant before a try block is entered.  An
exception there cannot be handled by any correct program.
"""
import ast

PT, PT0, PV, PV0 = "__advsim_pt__", "__advsim_pt0__", "__advsim_pv__", "__advsim_pv0__"
NEVER = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}


class Weaver(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0            # inside a function?
        self.cleanup = 0

    # ------------------------------------------------------------------ helpers
    def _wrap(self, node, fault=True):
        name = PV if fault and not self.cleanup else PV0
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[node], keywords=[]), node)

    def _stmt(self, at):
        fault = not self.cleanup and not isinstance(at, (ast.Try, getattr(ast, "TryStar", ast.Try), ast.With))
        call = ast.Call(func=ast.Name(id=PT if fault else PT0, ctx=ast.Load()), args=[], keywords=[])
        return ast.copy_location(ast.Expr(value=call), at)

    def _body(self, body):
        out = []
        for i, st in enumerate(body):
            if isinstance(st, (ast.Global, ast.Nonlocal)):
                out.append(st)
                continue
            doc = i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str)
            new = self.visit(st)
            if not doc:
                out.append(self._stmt(st))
            out.extend(new if isinstance(new, list) else [new])
        return out

    def _block(self, node, *fields):
        """Visit the expressions of a compound statement normally and weave its bodies."""
        for name, value in ast.iter_fields(node):
            if name in fields:
                if value:
                    setattr(node, name, self._body(value))
            elif isinstance(value, list):
                setattr(node, name, [self.visit(v) if isinstance(v, ast.AST) else v for v in value])
            elif isinstance(value, ast.AST):
                setattr(node, name, self.visit(value))
        return node

    # ------------------------------------------------------------------ definitions
    def visit_FunctionDef(self, node):
        self.depth += 1
        old, self.cleanup = self.cleanup, 0
        node.body = self._body(node.body)
        self.cleanup = old
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in node.body]
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self._wrap(self.visit(node.body), False)
        self.depth -= 1
        return node

    # ------------------------------------------------------------------ statements
    def visit_If(self, node):
        return self._block(node, "body", "orelse") if self.depth else self.generic_visit(node)

    visit_For = visit_AsyncFor = visit_If

    def visit_While(self, node):
        if not self.depth:
            return self.generic_visit(node)
        node = self._block(node, "body", "orelse")
        node.test = self._wrap(node.test)
        return node

    def visit_With(self, node):
        return self._block(node, "body") if self.depth else self.generic_visit(node)

    def visit_Try(self, node):
        if not self.depth:
            return self.generic_visit(node)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse) if node.orelse else []
        self.cleanup += 1
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self._body(h.body)
        node.finalbody = self._body(node.finalbody) if node.finalbody else []
        self.cleanup -= 1
        return node

    visit_TryStar = visit_Try

    def visit_Match(self, node):
        for c in node.cases:
            c.body = self._body(c.body)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.depth:
            node.value = self._wrap(node.value, False)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.depth:
            node.value = self._wrap(node.value, False)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
            if self.depth:
                node.value = self._wrap(node.value, False)
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.depth and node.value is not None:
            node.value = self._wrap(node.value, False)
        return node

    # ------------------------------------------------------------------ expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth or (isinstance(node.func, ast.Name) and node.func.id in NEVER):
            return node
        if node.keywords and node.keywords[-1].arg is not None:
            node.keywords[-1].value = self._wrap(node.keywords[-1].value)
        elif node.args and not node.keywords and not isinstance(node.args[-1], ast.Starred):
            node.args[-1] = self._wrap(node.args[-1])
        else:
            node.func = self._wrap(node.func)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.depth:
            node.right = self._wrap(node.right)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.depth:
            node.comparators[-1] = self._wrap(node.comparators[-1])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.depth and not isinstance(node.ctx, ast.Del):
            node.value = self._wrap(node.value)
        return node

    def _comp(self, node):
        self.generic_visit(node)
        if self.depth:
            if isinstance(node, ast.DictComp):
                node.value = self._wrap(node.value)
            else:
                node.elt = self._wrap(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_JoinedStr(self, node):
        return node

    def visit_arguments(self, node):
        return node


def compile_woven(source, path):
    tree = ast.parse(source, path)
    tree = Weaver().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)
