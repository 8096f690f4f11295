"""C02: unmapped and not-transitioning events"""
import c01


def run(p):
    c01.run(p, 'C02')
