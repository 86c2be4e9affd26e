from os import path as os_path
DIR_SEP = os_path.sep
