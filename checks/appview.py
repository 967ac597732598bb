"""User script run by the application: operations of a user on its window, read from a JSON file"""

import json
import sys

from PyQt5.QtCore import QCoreApplication, QPoint, QPointF, Qt
from PyQt5.QtGui import QGuiApplication, QWheelEvent
from PyQt5.QtTest import QTest

from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
from Patro.GraphicEngine.Painter.QtPainter import QtScene, QtQuickPaintedSceneItem
from IntervalArithmetic import Interval2D
from appdriver import event

job = json.load(open(application.args.user_script_args))

window = QGuiApplication.topLevelWindows()[0]
window.requestActivate()
QTest.qWaitForWindowActive(window, 3000)


def walk(item, cls):
    if isinstance(item, cls) if isinstance(cls, type) else item.metaObject().className().startswith(cls):
        yield item
    for child in item.childItems():
        yield from walk(child, cls)


view, = walk(window.contentItem(), QtQuickPaintedSceneItem)
buttons = sorted(walk(window.contentItem(), 'ToolButton'), key=lambda i: i.mapToScene(QPointF(0, 0)).x())
labels = [i for i in walk(window.contentItem(), 'QQuickText') if i.mapToScene(QPointF(0, 0)).y() > window.height() - 80]

emitted = [0]
application.qml_application.sceneChanged.connect(lambda: emitted.__setitem__(0, emitted[0] + 1))

scenes = []
for description in job['scenes']:
    scene = QtScene()
    for i, (x0, y0, x1, y1) in enumerate(description['segments']):
        scene.segment(Vector2D(x0, y0), Vector2D(x1, y1), GraphicPathStyle(line_width=1, stroke_color='black'), user_data=i)
    scene.bounding_box = Interval2D(*description['box'])
    scenes.append(scene)


def at(x, y):
    p = view.mapToScene(QPointF(x, y))
    return QPoint(round(p.x()), round(p.y()))


def offset():
    """rounding of the positions of the view in the window"""
    p = view.mapToScene(QPointF(0, 0))
    return [round(p.x()) - p.x(), round(p.y()) - p.y()]


def state():
    area = view.scene_area
    scene = view.scene
    return dict(
        zoom=view.zoom,
        area=None if area is None else [area.x.inf, area.x.sup, area.y.inf, area.y.sup],
        size=[view.width(), view.height()],
        scene=None if scene is None else scenes.index(scene),
        application_scene=None if application.qml_application.scene is None else scenes.index(application.qml_application.scene),
        selected=[] if scene is None else sorted(item.user_data for item in scene if item.selected),
        label=[i.property('text') for i in labels],
        emitted=emitted[0],
        buttons=len(buttons),
        offset=offset(),
    )


def wait():
    for i in range(3):
        QCoreApplication.processEvents()


event('state', None, state())
for op in job['operations']:
    k = op[0]
    if k == 'scene':
        application.qml_application.scene = None if op[1] is None else scenes[op[1]]
    elif k == 'key':
        QTest.keyClick(window, getattr(Qt, 'Key_' + op[1]))
    elif k == 'wheel':
        p = QPointF(at(*op[1]))
        QCoreApplication.sendEvent(window, QWheelEvent(p, p, QPoint(0, 0), QPoint(0, op[2]), Qt.NoButton, Qt.NoModifier, Qt.NoScrollPhase, False))
    elif k == 'drag':
        QTest.mousePress(window, Qt.MiddleButton, Qt.NoModifier, at(*op[1][0]))
        for p in op[1][1:]:
            QTest.mouseMove(window, at(*p))
        QTest.mouseRelease(window, Qt.MiddleButton, Qt.NoModifier, at(*op[1][-1]))
    elif k == 'click':
        QTest.mouseClick(window, Qt.LeftButton, Qt.NoModifier, at(*op[1]))
    elif k == 'move':
        QTest.mouseMove(window, at(op[1][0] + 1, op[1][1]))
        QTest.mouseMove(window, at(*op[1]))
    elif k == 'button':
        button = buttons[op[1]]
        p = button.mapToScene(QPointF(button.width()/2, button.height()/2))
        QTest.mouseClick(window, Qt.LeftButton, Qt.NoModifier, QPoint(int(p.x()), int(p.y())))
    elif k == 'resize':
        window.resize(*op[1])
        QTest.qWait(30)
    wait()
    event('state', op, state())
event('done')
sys.exit(42)
