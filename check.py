#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symt import driver
if __name__ == '__main__':
    driver.main()
