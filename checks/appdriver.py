"""Start the Qt application of the tree under test: appdriver.py REPO LOG [arguments of the application]

The events which are observed are appended to the file LOG, one JSON list by line.
"""

import json
import logging
import os
import sys
import types

REPO, LOG = sys.argv[1:3]
sys.argv = ['patro'] + sys.argv[3:]
sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')


def event(*args):
    with open(LOG, 'a', encoding='utf8') as fh:
        fh.write(json.dumps(args) + '\n')


class Handler(logging.Handler):
    def emit(self, record):
        event('log', record.levelname, record.name, record.getMessage())


logging.getLogger().addHandler(Handler())
logging.getLogger('Patro').setLevel(logging.DEBUG)

if not os.path.exists(os.path.join(REPO, 'Patro', 'QtApplication', 'rcc', 'PatroRessource.py')):
    # icons compiled by pyrcc5, not under version control
    package = types.ModuleType('Patro.QtApplication.rcc')
    package.__path__ = []
    package.PatroRessource = types.ModuleType('Patro.QtApplication.rcc.PatroRessource')
    sys.modules['Patro.QtApplication.rcc'] = package
    sys.modules['Patro.QtApplication.rcc.PatroRessource'] = package.PatroRessource

from Patro.QtApplication.QmlApplication import Application

from PyQt5.QtCore import QTimer
sys.modules['appdriver'] = types.ModuleType('appdriver')
sys.modules['appdriver'].event = event

Application.setup_gui_application()
application = Application.create()
try:
    Application.create()
    event('second', 'created')
except NameError:
    event('second', 'NameError')
event('instance', Application.instance is application)
event('created', str(application.args.user_script), application.args.user_script_args, application.qml_application.scene is None)
QTimer.singleShot(int(os.environ.get('APP_TIMEOUT', '60000')), lambda: (event('timeout'), application.platform and sys.exit(77)))
if application.args.user_script is None:
    QTimer.singleShot(200, lambda: (event('no-script'), sys.exit(5)))
application.exec_()
