"""x values for command line runs."""
import math


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n = int(n)
    while not is_prime(n):
        n += 1
    return n


def logu(rng, a, b):
    return int(math.exp(rng.uniform(math.log(a), math.log(b))))


def special(rng, maxx):
    """Powers and products of primes, powers of 2 and 10, +- 0..2."""
    while True:
        k = rng.randrange(10)
        if k < 6:
            e = k + 1
            v = next_prime(logu(rng, 2, max(3, maxx ** (1.0 / e)))) ** e
        elif k == 6:
            v = next_prime(logu(rng, 2, maxx ** 0.5)) * next_prime(logu(rng, 2, maxx ** 0.5))
        elif k == 7:
            v = 1 << rng.randrange(1, 64)
        elif k == 8:
            v = 10 ** rng.randrange(1, 19)
        else:
            v = logu(rng, 2, maxx ** (1 / 3.0)) ** 3
        v += rng.randrange(-2, 3)
        if 0 <= v <= maxx:
            return v
