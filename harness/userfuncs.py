"""A user's own functions, as USE imports them."""
from syncany.calculaters import TransformCalculater
from syncanysql.calculaters import Calculater, GenerateCalculater, StateAggregateCalculater, register_calculater

the_answer = 42
LABEL = "b"


def add(a, b):
    return a + b


def MulNumber(a, b):
    return a * b


def first_of(a, *rest):
    return a


def const7():
    return 7


def pair(a, b):
    return [a, b]


def listing(n):
    return list(range(n or 0))


def boom(a):
    raise ValueError(a)


def boom_odd(a):
    if a % 2:
        raise ValueError(a)
    return a


class Tool:
    @staticmethod
    def twice(a):
        return a + a

    @staticmethod
    def count(n):
        yield from range(n or 0)


def upto(n):
    for i in range(n or 0):
        yield i


@register_calculater("u_sub")
class Sub(Calculater):
    def calculate(self, a, b):
        if a is None or b is None:
            return None
        return a - b


@register_calculater("u_upto")
class UpTo(GenerateCalculater):
    def calculate(self, n):
        for i in range(n or 0):
            yield i


@register_calculater("u_join")
class Join(StateAggregateCalculater):
    def aggregate(self, state_value, data_value):
        if data_value is None:
            return state_value
        return (state_value or []) + [str(data_value)]

    def reduce(self, state_value, data_value):
        return (state_value or []) + (data_value or [])

    def final_value(self, state_value):
        return ",".join(state_value or [])


@register_calculater("u_peak")
class Peak(StateAggregateCalculater):
    def aggregate(self, state_value, data_value):
        if data_value is None:
            return state_value
        return data_value if state_value is None else max(state_value, data_value)

    def reduce(self, state_value, data_value):
        return self.aggregate(state_value, data_value)

    def final_value(self, state_value):
        return state_value


@register_calculater("u_number")
class Number(TransformCalculater):
    """every row gets its number"""

    def calculate(self, datas):
        out = [dict(d, n__=i + 1) for i, d in enumerate(datas)]
        if out:
            self.update_outputer_schema(list(out[0]))
        return out


@register_calculater("u_back")
class Back(TransformCalculater):
    """the rows from the last to the first"""

    def calculate(self, datas):
        return datas[::-1]


@register_calculater("u_take")
class Take(TransformCalculater):
    """the first rows"""

    def calculate(self, datas, n):
        return datas[:n]
